SPECIFICATION MSpec
CONSTANTS Alphabet = {48, 56, 57, 104, 33, 122, 90, 89, 120, 63}
 MaxLen = 5
INVARIANTS Spoken Orderless Twice Unambiguous
CHECK_DEADLOCK FALSE
