----------------------------- MODULE AlgShared ------------------------------
(* The algorithm of Shared: a state word, a slab of wakers behind a lock, and the  *)
(* notifier the inner future is given. Clones poll, sleep, are polled on a whim or  *)
(* are dropped while pending; one thread completes the inner future and wakes it,    *)
(* Spurious times for nothing first.                                                 *)
(* Checked: the inner future is polled by one clone at a time and never after it      *)
(* finished; nobody reads the output before it is there; a clone that is kept is not  *)
(* left asleep although the inner future can finish (deadlock).                       *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Clones, Spurious, Drops
(* --algorithm Shared
variables st = "idle",                       \* idle | polling | polling_woken | complete
          slab = [c \in Clones |-> "no"],    \* "no" | "empty" (woken) | "set"
          gone = FALSE,                      \* the slab was taken (its critical sections are single steps)
          open = FALSE, armed = FALSE,       \* inner future: completed; holds the notifier's waker
          out = FALSE, polls = {}, woke = [c \in Clones |-> FALSE], drops = Drops;
define
  OneAtATime == Cardinality(polls) <= 1 /\ (out => polls = {})
end define;
macro wakeall() begin
  woke := [c \in Clones |-> woke[c] \/ slab[c] = "set"];
  slab := [c \in Clones |-> IF slab[c] = "set" THEN "empty" ELSE slab[c]];
end macro;
process clone \in Clones
variables ok = FALSE, got = FALSE, old = "";
begin
C0: while ~got do
P0:   if st = "complete" then assert out; got := TRUE; goto C0; end if;
P1:   if ~gone then slab[self] := "set"; end if;
P2:   if st = "idle" then st := "polling";
      elsif st = "complete" then assert out; got := TRUE; goto C0;
      else goto PP;
      end if;
I0:   polls := polls \cup {self}; ok := open; armed := TRUE;
I1:   polls := polls \ {self};
      if ok then
F0:     out := TRUE;
F1:     st := "complete";
F2:     gone := TRUE; wakeall(); got := TRUE; goto C0;
      else
F3:     old := st; st := "idle";
        if old = "polling_woken" then
F4:       if ~gone then wakeall(); end if;
        end if;
      end if;
PP:   either await woke[self]; woke[self] := FALSE;
      or await drops > 0; drops := drops - 1;
         either
D0:        slab[self] := "no"; got := TRUE;   \* dropped while pending
         or skip;                                            \* polled on a whim
         end either;
      end either;
    end while;
end process;
process opener = 0
variables n = 0, arm = FALSE;
begin
O0: while n <= Spurious do
      if n = Spurious then open := TRUE; end if;
O1:   arm := armed; armed := FALSE; n := n + 1;
      if arm then
W0:     if st = "polling" then st := "polling_woken"; end if;   \* Notifier::wake
W1:     if ~gone then wakeall(); end if;
      end if;
    end while;
end process;
end algorithm; *)
\* BEGIN TRANSLATION
VARIABLES pc, st, slab, gone, open, armed, out, polls, woke, drops

(* define statement *)
OneAtATime == Cardinality(polls) <= 1 /\ (out => polls = {})

VARIABLES ok, got, old, n, arm

vars == << pc, st, slab, gone, open, armed, out, polls, woke, drops, ok, got, 
           old, n, arm >>

ProcSet == (Clones) \cup {0}

Init == (* Global variables *)
        /\ st = "idle"
        /\ slab = [c \in Clones |-> "no"]
        /\ gone = FALSE
        /\ open = FALSE
        /\ armed = FALSE
        /\ out = FALSE
        /\ polls = {}
        /\ woke = [c \in Clones |-> FALSE]
        /\ drops = Drops
        (* Process clone *)
        /\ ok = [self \in Clones |-> FALSE]
        /\ got = [self \in Clones |-> FALSE]
        /\ old = [self \in Clones |-> ""]
        (* Process opener *)
        /\ n = 0
        /\ arm = FALSE
        /\ pc = [self \in ProcSet |-> CASE self \in Clones -> "C0"
                                        [] self = 0 -> "O0"]

C0(self) == /\ pc[self] = "C0"
            /\ IF ~got[self]
                  THEN /\ pc' = [pc EXCEPT ![self] = "P0"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "Done"]
            /\ UNCHANGED << st, slab, gone, open, armed, out, polls, woke, 
                            drops, ok, got, old, n, arm >>

P0(self) == /\ pc[self] = "P0"
            /\ IF st = "complete"
                  THEN /\ Assert(out, 
                                 "Failure of assertion at line 28, column 31.")
                       /\ got' = [got EXCEPT ![self] = TRUE]
                       /\ pc' = [pc EXCEPT ![self] = "C0"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "P1"]
                       /\ got' = got
            /\ UNCHANGED << st, slab, gone, open, armed, out, polls, woke, 
                            drops, ok, old, n, arm >>

P1(self) == /\ pc[self] = "P1"
            /\ IF ~gone
                  THEN /\ slab' = [slab EXCEPT ![self] = "set"]
                  ELSE /\ TRUE
                       /\ slab' = slab
            /\ pc' = [pc EXCEPT ![self] = "P2"]
            /\ UNCHANGED << st, gone, open, armed, out, polls, woke, drops, ok, 
                            got, old, n, arm >>

P2(self) == /\ pc[self] = "P2"
            /\ IF st = "idle"
                  THEN /\ st' = "polling"
                       /\ pc' = [pc EXCEPT ![self] = "I0"]
                       /\ got' = got
                  ELSE /\ IF st = "complete"
                             THEN /\ Assert(out, 
                                            "Failure of assertion at line 31, column 34.")
                                  /\ got' = [got EXCEPT ![self] = TRUE]
                                  /\ pc' = [pc EXCEPT ![self] = "C0"]
                             ELSE /\ pc' = [pc EXCEPT ![self] = "PP"]
                                  /\ got' = got
                       /\ st' = st
            /\ UNCHANGED << slab, gone, open, armed, out, polls, woke, drops, 
                            ok, old, n, arm >>

I0(self) == /\ pc[self] = "I0"
            /\ polls' = (polls \cup {self})
            /\ ok' = [ok EXCEPT ![self] = open]
            /\ armed' = TRUE
            /\ pc' = [pc EXCEPT ![self] = "I1"]
            /\ UNCHANGED << st, slab, gone, open, out, woke, drops, got, old, 
                            n, arm >>

I1(self) == /\ pc[self] = "I1"
            /\ polls' = polls \ {self}
            /\ IF ok[self]
                  THEN /\ pc' = [pc EXCEPT ![self] = "F0"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "F3"]
            /\ UNCHANGED << st, slab, gone, open, armed, out, woke, drops, ok, 
                            got, old, n, arm >>

F0(self) == /\ pc[self] = "F0"
            /\ out' = TRUE
            /\ pc' = [pc EXCEPT ![self] = "F1"]
            /\ UNCHANGED << st, slab, gone, open, armed, polls, woke, drops, 
                            ok, got, old, n, arm >>

F1(self) == /\ pc[self] = "F1"
            /\ st' = "complete"
            /\ pc' = [pc EXCEPT ![self] = "F2"]
            /\ UNCHANGED << slab, gone, open, armed, out, polls, woke, drops, 
                            ok, got, old, n, arm >>

F2(self) == /\ pc[self] = "F2"
            /\ gone' = TRUE
            /\ woke' = [c \in Clones |-> woke[c] \/ slab[c] = "set"]
            /\ slab' = [c \in Clones |-> IF slab[c] = "set" THEN "empty" ELSE slab[c]]
            /\ got' = [got EXCEPT ![self] = TRUE]
            /\ pc' = [pc EXCEPT ![self] = "C0"]
            /\ UNCHANGED << st, open, armed, out, polls, drops, ok, old, n, 
                            arm >>

F3(self) == /\ pc[self] = "F3"
            /\ old' = [old EXCEPT ![self] = st]
            /\ st' = "idle"
            /\ IF old'[self] = "polling_woken"
                  THEN /\ pc' = [pc EXCEPT ![self] = "F4"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "PP"]
            /\ UNCHANGED << slab, gone, open, armed, out, polls, woke, drops, 
                            ok, got, n, arm >>

F4(self) == /\ pc[self] = "F4"
            /\ IF ~gone
                  THEN /\ woke' = [c \in Clones |-> woke[c] \/ slab[c] = "set"]
                       /\ slab' = [c \in Clones |-> IF slab[c] = "set" THEN "empty" ELSE slab[c]]
                  ELSE /\ TRUE
                       /\ UNCHANGED << slab, woke >>
            /\ pc' = [pc EXCEPT ![self] = "PP"]
            /\ UNCHANGED << st, gone, open, armed, out, polls, drops, ok, got, 
                            old, n, arm >>

PP(self) == /\ pc[self] = "PP"
            /\ \/ /\ woke[self]
                  /\ woke' = [woke EXCEPT ![self] = FALSE]
                  /\ pc' = [pc EXCEPT ![self] = "C0"]
                  /\ drops' = drops
               \/ /\ drops > 0
                  /\ drops' = drops - 1
                  /\ \/ /\ pc' = [pc EXCEPT ![self] = "D0"]
                     \/ /\ TRUE
                        /\ pc' = [pc EXCEPT ![self] = "C0"]
                  /\ woke' = woke
            /\ UNCHANGED << st, slab, gone, open, armed, out, polls, ok, got, 
                            old, n, arm >>

D0(self) == /\ pc[self] = "D0"
            /\ slab' = [slab EXCEPT ![self] = "no"]
            /\ got' = [got EXCEPT ![self] = TRUE]
            /\ pc' = [pc EXCEPT ![self] = "C0"]
            /\ UNCHANGED << st, gone, open, armed, out, polls, woke, drops, ok, 
                            old, n, arm >>

clone(self) == C0(self) \/ P0(self) \/ P1(self) \/ P2(self) \/ I0(self)
                  \/ I1(self) \/ F0(self) \/ F1(self) \/ F2(self)
                  \/ F3(self) \/ F4(self) \/ PP(self) \/ D0(self)

O0 == /\ pc[0] = "O0"
      /\ IF n <= Spurious
            THEN /\ IF n = Spurious
                       THEN /\ open' = TRUE
                       ELSE /\ TRUE
                            /\ open' = open
                 /\ pc' = [pc EXCEPT ![0] = "O1"]
            ELSE /\ pc' = [pc EXCEPT ![0] = "Done"]
                 /\ open' = open
      /\ UNCHANGED << st, slab, gone, armed, out, polls, woke, drops, ok, got, 
                      old, n, arm >>

O1 == /\ pc[0] = "O1"
      /\ arm' = armed
      /\ armed' = FALSE
      /\ n' = n + 1
      /\ IF arm'
            THEN /\ pc' = [pc EXCEPT ![0] = "W0"]
            ELSE /\ pc' = [pc EXCEPT ![0] = "O0"]
      /\ UNCHANGED << st, slab, gone, open, out, polls, woke, drops, ok, got, 
                      old >>

W0 == /\ pc[0] = "W0"
      /\ IF st = "polling"
            THEN /\ st' = "polling_woken"
            ELSE /\ TRUE
                 /\ st' = st
      /\ pc' = [pc EXCEPT ![0] = "W1"]
      /\ UNCHANGED << slab, gone, open, armed, out, polls, woke, drops, ok, 
                      got, old, n, arm >>

W1 == /\ pc[0] = "W1"
      /\ IF ~gone
            THEN /\ woke' = [c \in Clones |-> woke[c] \/ slab[c] = "set"]
                 /\ slab' = [c \in Clones |-> IF slab[c] = "set" THEN "empty" ELSE slab[c]]
            ELSE /\ TRUE
                 /\ UNCHANGED << slab, woke >>
      /\ pc' = [pc EXCEPT ![0] = "O0"]
      /\ UNCHANGED << st, gone, open, armed, out, polls, drops, ok, got, old, 
                      n, arm >>

opener == O0 \/ O1 \/ W0 \/ W1

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == opener
           \/ (\E self \in Clones: clone(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION
=============================================================================
