---- MODULE LockTrace ----
EXTENDS Lin, Lock
====
