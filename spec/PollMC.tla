------------------------------- MODULE PollMC -------------------------------
EXTENDS Poll
MCVs == {-1, 2}
=============================================================================
