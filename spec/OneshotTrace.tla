---- MODULE OneshotTrace ----
EXTENDS Lin, Oneshot
====
