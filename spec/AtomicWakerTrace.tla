---- MODULE AtomicWakerTrace ----
EXTENDS Lin, AtomicWaker
====
