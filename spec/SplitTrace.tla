---- MODULE SplitTrace ----
EXTENDS Lin, Split
====
