---- MODULE MpscTrace ----
EXTENDS Lin, Mpsc
====
