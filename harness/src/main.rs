//! Drives snapcd's store interface by lines on standard input: `CONN OP ARGS...`, byte strings in hex.
//! Every line is answered by `ok ...` or `err ...`.
use snapcd::ds::sqlite::SqliteDS;
use snapcd::ds::{DataStore, Transactional};
use snapcd::{file, key::Key, Keyish, Reflog};
use std::collections::HashMap;
use std::io::{self, BufRead, Read, Write};
use std::str::FromStr;

fn unhex(s: &str) -> Vec<u8> {
    if let Some(r) = s.strip_prefix('@') {
        // @length:byte
        let mut p = r.split(':');
        let n: usize = p.next().unwrap().parse().unwrap();
        let b: u64 = p.next().unwrap().parse().unwrap();
        let mut x = b.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
        return (0..n)
            .map(|_| {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                (x >> 32) as u8
            })
            .collect();
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn text(s: &str) -> String {
    String::from_utf8(unhex(s)).unwrap()
}

/// Delivers a file's bytes in pieces of the given sizes, over and over; 0 is an interrupted read.
struct Pieces {
    data: Vec<u8>,
    pos: usize,
    sizes: Vec<usize>,
    n: usize,
}

impl Read for Pieces {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let s = self.sizes[self.n % self.sizes.len()];
        self.n += 1;
        if s == 0 {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        let k = s.min(buf.len()).min(self.data.len() - self.pos);
        buf[..k].copy_from_slice(&self.data[self.pos..self.pos + k]);
        self.pos += k;
        Ok(k)
    }
}

/// Takes what is written in pieces of the given sizes.
struct Taker {
    out: Vec<u8>,
    sizes: Vec<usize>,
    n: usize,
}

impl Write for Taker {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let s = self.sizes[self.n % self.sizes.len()];
        self.n += 1;
        if s == 0 {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        let k = s.min(buf.len());
        self.out.extend_from_slice(&buf[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn sizes(s: &str) -> Vec<usize> {
    s.split(',').map(|x| x.parse().unwrap()).collect()
}

fn rem(s: &str) -> Option<String> {
    if s == "-" {
        None
    } else {
        Some(text(&s[1..]))
    }
}

type Res = Result<String, String>;

fn e<T: std::fmt::Debug>(x: T) -> String {
    format!("{:?}", x).replace('\n', " ")
}

fn run(ds: &mut SqliteDS, op: &str, a: &[&str]) -> Res {
    match op {
        "begin" => ds.begin_trans().map(|_| String::new()).map_err(e),
        "commit" => ds.commit().map(|_| String::new()).map_err(e),
        "rollback" => ds.rollback().map(|_| String::new()).map_err(e),
        "put" => ds.put(unhex(a[0])).map(|k| hex(&k.as_db_key())).map_err(e),
        "rawput" => ds.raw_put(&unhex(a[0]), &unhex(a[1])).map(|_| String::new()).map_err(e),
        "get" => {
            let v = ds.raw_get(&unhex(a[0])).map_err(e)?;
            std::fs::write(text(a[1]), &v).map_err(e)?;
            Ok(String::new())
        }
        "exists" => ds.raw_exists(&unhex(a[0])).map(|v| v.to_string()).map_err(e),
        "between" => {
            let end = if a[1] == "-" { None } else { Some(unhex(a[1])) };
            ds.raw_between(&unhex(a[0]), end.as_deref())
                .map(|v| v.iter().map(|k| hex(k)).collect::<Vec<_>>().join(","))
                .map_err(e)
        }
        "sethead" => ds.put_head(&text(a[0])).map(|_| String::new()).map_err(e),
        "gethead" => ds
            .get_head()
            .map(|h| h.map_or("none".to_string(), |s| format!("+{}", hex(s.as_bytes()))))
            .map_err(e),
        "push" => ds
            .reflog_push(&Reflog {
                refname: text(a[0]),
                remote: rem(a[1]),
                key: Key::from_db_key(&unhex(a[2])).map_err(e)?.into(),
            })
            .map(|_| String::new())
            .map_err(e),
        "refget" => ds
            .reflog_get(&text(a[0]), rem(a[1]).as_deref())
            .map(|k| hex(&k.inner().as_db_key()))
            .map_err(e),
        "refwalk" => ds
            .reflog_walk(&text(a[0]), rem(a[1]).as_deref())
            .map(|v| v.iter().map(|k| hex(&k.inner().as_db_key())).collect::<Vec<_>>().join(","))
            .map_err(e),
        "putdata" => {
            let data = std::fs::read(text(a[0])).map_err(e)?;
            let r = Pieces { data, pos: 0, sizes: sizes(a[1]), n: 0 };
            file::put_data(ds, r).map(|k| hex(&k.as_db_key())).map_err(e)
        }
        "readdata" => {
            let mut w = Taker { out: vec![], sizes: sizes(a[2]), n: 0 };
            file::read_data(ds, Key::from_db_key(&unhex(a[0])).map_err(e)?, &mut w).map_err(e)?;
            std::fs::write(text(a[1]), &w.out).map_err(e)?;
            Ok(String::new())
        }
        "resolve" => {
            let k = Keyish::from_str(&text(a[0])).map_err(|x| format!("parse {}", x).replace('\n', " "))?;
            ds.canonicalize(k)
                .map(|k| hex(&k.as_db_key()) + " " + &k.to_string())
                .map_err(|x| x.to_string().replace('\n', " "))
        }
        _ => Err(format!("unknown operation {}", op)),
    }
}

fn main() {
    let mut conns: HashMap<String, SqliteDS> = HashMap::new();
    let stdin = io::stdin();
    let stdout = io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let p: Vec<&str> = line.split(' ').collect();
        let (id, op, args) = (p[0], p[1], &p[2..]);
        let r = match op {
            "open" => SqliteDS::new(text(args[0])).map(|d| {
                conns.insert(id.to_string(), d);
                String::new()
            }).map_err(e),
            "close" => {
                conns.remove(id);
                Ok(String::new())
            }
            _ => match conns.get_mut(id) {
                Some(d) => run(d, op, args),
                None => Err("no connection".to_string()),
            },
        };
        let mut o = stdout.lock();
        match r {
            Ok(s) => writeln!(o, "ok {}", s).unwrap(),
            Err(s) => writeln!(o, "err {}", s).unwrap(),
        }
        o.flush().unwrap();
    }
}
