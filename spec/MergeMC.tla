------------------------------ MODULE MergeMC ------------------------------
EXTENDS Merge
MCVs == {-1, 2}
=============================================================================
