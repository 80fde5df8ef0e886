"""Stand-in for the lensing library, which is not installed here.  Only the interface used by the code under proof exists;
in proofs every function is an uninterpreted symbol (nothing but its name and arguments is known), in native runs it has
simple smooth values.  This is an assumed dependency."""
STUB = True
