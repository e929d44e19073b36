---- MODULE AdaptTrace ----
EXTENDS SeqRun, Adapt
====
