CLAIMS={
"C01":"Preconditions: decay factors at most 1 (2^exponent), exponents in the protocol's range, generation factors of at most 32 bits.",
"C02":"Preconditions: genesis within +-34,000 years, slot duration 1..255 s, epoch exponent at most 31, no wrap-around of the 32-bit slot and epoch indices.",
"C07":"Preconditions: commitment slot plus committable ages fit in 32 bits; addresses have no nil parts; unlock condition lists have no nil elements.",
"C03":"Preconditions: the totals over the inputs, the outputs and the amounts to return fit in 64 bits; inputs and outputs are not nil. Conditions and amounts of outputs are read through their accessors, which have contracts of their own.",
"C04":"Preconditions as for C01; inputs, outputs and allotments are not nil.",
"C15":"Capability masks are byte strings of any length; bit positions up to the bound of the index type.",
"C16":"Hash functions are uninterpreted (deterministic).",
"C19":"Clone of a part called through an interface is uninterpreted in the contract of the whole and has a contract of its own for every type (structural induction over the nesting); distinctness is proved for every object, list and amount a Clone makes itself.",
"C20":"The list of versions and the lookup table are consistent, which is proved to hold initially and to be preserved.",
"C05":"Amounts are big.Int values, modelled as mathematical integers; outputs are not nil.",
"C06":"Signature verification is an uninterpreted function of key, message and signature; preconditions: a multi address has at most 257 parts, no nil elements.",
"C08":"Preconditions: slot and epoch arithmetic on the commitment slot stays within 32 bits; feature sets hold one feature per type (proved for accepted outputs under C12).",
"C09":"Preconditions: state index below 2^32-1; feature sets hold one feature per type.",
"C10":"Preconditions: slot and epoch arithmetic stays within 32 bits.",
"C11":"Preconditions: sizes at most 2^32 and partial scores at most 2^40, so that the unchecked sums of scores cannot wrap around.",
"C12":"Elements of lists are not nil. The order of transactions' elements is that of the code's comparison functions, which have contracts of their own.",
"C17":"Preconditions: sizes and counts between 0 and 2^32.",
"C18":"Parents, sizes and protocol parameters are read through interfaces whose methods are uninterpreted here; their implementations for sizes have contracts under C24. That the registered validators are called is serix's part.",
"C21":"Preconditions: list elements are not nil, a multi address has at most 257 components (the format allows 10). That serix calls the validators on decoding is assumed.",
"C22":"Preconditions: the sums fit in 64 bits where the code adds unchecked; inputs, outputs and allotments are not nil. The generated and decayed mana of an input are those of C01 (uninterpreted here).",
"C24":"The wire format is written down in the contracts; serix, which encodes by reflection, is not verified itself. Preconditions: sizes at most 2^32.",
}
NA={
"C13":"Not reached: the conversions loop over re-sliced buffers and a generator polynomial; the tool has no contracts for Unicode case mapping (strings.ToLower/ToUpper), on which Decode relies. No other technique is substituted.",
"C14":"Not reached: the tree is hashed by recursion over slices of serialized values through generic encoders; the contracts this needs (a ghost tree over an injective hash) are not expressible in the tool's specification language.",
"C23":"Encoding and decoding are done by serix, an external library that works by reflection over struct tags; there are no functions in /repo to put under contract. What /repo itself contributes - sizes and validators - is claimed under C24, C12, C15 and C21.",
"C25":"A statement about interleavings: the verifier is sequential and proves functions one at a time; it has no permissions or ownership logic for concurrent access.",
}

