SPECIFICATION Spec
CONSTANTS
 Names <- N2
 Order <- O2
 Contents <- C2
 MaxDepth = 2
 XSets <- X2
 SampleA = 0
 SampleB = 0
 EmitWhat = "none"
INVARIANTS InvSnapshot InvFetch InvRoundTrip InvDiff InvClean InvObj InvCheckout
INVARIANT Emit
CHECK_DEADLOCK FALSE
