------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* What a message is on the wire: the Cap'n Proto encoding of the schema   *)
(* (cdn-proto/schema/messages.capnp), down to the byte. A message is a     *)
(* record; byte strings are sequences of 0..255, 64-bit numbers their      *)
(* eight bytes (least significant first). Decode reads any encoding of a   *)
(* message: one or several segments, near and far pointers, structures of  *)
(* other versions of the schema. Encode makes one, laid out as asked.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Zeros(n) == [j \in 1..n |-> 0]

\* ------------------------------------------------------------------ decoding

\* the number in bytes o+1.. of b
U16(b, o) == b[o + 1] + 256 * b[o + 2]
U29(b, o) == (b[o + 1] \div 8) + 32 * b[o + 2] + 8192 * b[o + 3] + 2097152 * b[o + 4]
S30(b, o) == LET u == (b[o + 1] \div 4) + 64 * b[o + 2] + 16384 * b[o + 3] + 4194304 * b[o + 4] IN
             IF b[o + 4] >= 128 THEN u - 1073741824 ELSE u
U24(b, o) == b[o + 1] + 256 * b[o + 2] + 65536 * b[o + 3]

Segments(b) ==
  LET n == U24(b, 0) + 1
      size(k) == 8 * U24(b, 4 * k)
      head == 8 * ((n + 2) \div 2)
      Before[k \in 1..n] == IF k = 1 THEN head ELSE Before[k - 1] + size(k - 1) IN
  [k \in 1..n |-> SubSeq(b, Before[k] + 1, Before[k] + size(k))]

Word(segs, s, w) == SubSeq(segs[s + 1], 8 * w + 1, 8 * w + 8)
IsNull(p) == p = Zeros(8)

\* where the pointer in word w of segment s leads, and what it says of what is there
Follow(segs, s, w) ==
  LET p == Word(segs, s, w) IN
  IF p[1] % 4 # 2 THEN [seg |-> s, at |-> w + 1 + S30(p, 0), tag |-> p]
  ELSE LET far == U24(p, 4) pad == U29(p, 0) q == Word(segs, far, pad) IN
       IF (p[1] \div 4) % 2 = 0 THEN [seg |-> far, at |-> pad + 1 + S30(q, 0), tag |-> q]
       ELSE [seg |-> U24(q, 4), at |-> U29(q, 0), tag |-> Word(segs, far, pad + 1)]

\* the structure at a pointer; what it has no room for is zero
Struct(segs, s, w) ==
  IF IsNull(Word(segs, s, w)) THEN [seg |-> 0, at |-> 0, dw |-> 0, pw |-> 0]
  ELSE LET f == Follow(segs, s, w) IN [seg |-> f.seg, at |-> f.at, dw |-> U16(f.tag, 4), pw |-> U16(f.tag, 6)]
Data(segs, st, k) == IF k < st.dw THEN Word(segs, st.seg, st.at + k) ELSE Zeros(8)
Bytes(segs, st, k) ==
  IF k >= st.pw \/ (IsNull(Word(segs, st.seg, st.at + st.dw + k))) THEN <<>>
  ELSE LET f == Follow(segs, st.seg, st.at + st.dw + k) IN SubSeq(segs[f.seg + 1], 8 * f.at + 1, 8 * f.at + U29(f.tag, 4))
Text(segs, st, k) == LET b == Bytes(segs, st, k) IN IF b = <<>> THEN b ELSE SubSeq(b, 1, Len(b) - 1)

Kinds == <<"key", "permit", "resp", "direct", "bcast", "sub", "unsub", "usync", "tsync">>

Decode(b) ==
  LET segs == Segments(b)
      root == Struct(segs, 0, 0)
      kind == Kinds[U16(Data(segs, root, 0), 0) + 1]
      body == Struct(segs, root.seg, root.at + root.dw) IN
  CASE kind = "key" -> [t |-> kind, pk |-> Bytes(segs, body, 0), n |-> Data(segs, body, 0), sig |-> Bytes(segs, body, 1)]
    [] kind = "permit" -> [t |-> kind, n |-> Data(segs, body, 0)]
    [] kind = "resp" -> [t |-> kind, n |-> Data(segs, body, 0), s |-> Text(segs, body, 0)]
    [] kind = "direct" -> [t |-> kind, to |-> Bytes(segs, body, 0), m |-> Bytes(segs, body, 1)]
    [] kind = "bcast" -> [t |-> kind, ts |-> Bytes(segs, body, 0), m |-> Bytes(segs, body, 1)]
    [] kind \in {"sub", "unsub"} -> [t |-> kind, ts |-> Bytes(segs, root, 0)]
    [] kind \in {"usync", "tsync"} -> [t |-> kind, m |-> Bytes(segs, root, 0)]

\* ------------------------------------------------------------------ encoding

Lo(n, k) == IF k = 1 THEN <<n % 256>> ELSE <<n % 256>> \o [j \in 1..(k - 1) |-> (n \div (IF j = 1 THEN 256 ELSE IF j = 2 THEN 65536 ELSE 16777216)) % 256]
StructPtr(off, dw, pw) == Lo(4 * off, 4) \o Lo(dw, 2) \o Lo(pw, 2)
ListPtr(off, n) == Lo(4 * off + 1, 4) \o Lo(8 * n + 2, 4)
FarPtr(seg, off, double) == Lo(8 * off + (IF double THEN 4 ELSE 0) + 2, 4) \o Lo(seg, 4)
Padded(b) == b \o Zeros((8 - (Len(b) % 8)) % 8)
Words(b) == Len(b) \div 8

RECURSIVE Concat(_)
Concat(l) == IF l = <<>> THEN <<>> ELSE Head(l) \o Concat(Tail(l))

\* pointers of a structure to byte strings (one behind the other, from `from` words behind the first pointer), and these
RECURSIVE Lists(_, _)
Lists(bs, from) ==
  IF bs = <<>> THEN <<<<>>, <<>>>>
  ELSE LET b == Head(bs) r == Lists(Tail(bs), from - 1 + (IF b = <<>> THEN 0 ELSE Words(Padded(b)))) IN
       <<(IF b = <<>> THEN Zeros(8) ELSE ListPtr(from - 1, Len(b))) \o r[1], Padded(b) \o r[2]>>

\* what a message consists of: discriminant, numbers of the body, byte strings of the body (FALSE: no body but itself)
Parts(m) ==
  CASE m.t = "key" -> <<0, m.n, <<m.pk, m.sig>>>>
    [] m.t = "permit" -> <<1, m.n, <<>>>>
    [] m.t = "resp" -> <<2, m.n, <<Append(m.s, 0)>>>>
    [] m.t = "direct" -> <<3, <<>>, <<m.to, m.m>>>>
    [] m.t = "bcast" -> <<4, <<>>, <<m.ts, m.m>>>>
    [] m.t = "sub" -> <<5, m.ts>>
    [] m.t = "unsub" -> <<6, m.ts>>
    [] m.t = "usync" -> <<7, m.m>>
    [] m.t = "tsync" -> <<8, m.m>>

\* how much the structures have beyond (or less than) what the schema knows: words of data, pointers
Extra(how) == IF how = "newer" THEN <<2, 1>> ELSE <<0, 0>>
\* an older version may have had no numbers, and structures end before what is empty
Trim(how, n) == IF how = "older" /\ n = Zeros(8) THEN <<>> ELSE n
RECURSIVE TrimP(_, _)
TrimP(how, bs) == IF how = "older" /\ bs # <<>> /\ bs[Len(bs)] = <<>> THEN TrimP(how, SubSeq(bs, 1, Len(bs) - 1)) ELSE bs

Body(how, n, bs) ==  \* numbers, pointers, strings of a body structure
  LET x == Extra(how)
      num == Trim(how, n) \o [j \in 1..(8 * x[1]) |-> 255]
      all == TrimP(how, bs) \o [j \in 1..x[2] |-> <<1, 2, 3>>]
      l == Lists(all, Len(all)) IN
  [dw |-> Words(num), pw |-> Len(all), b |-> num \o l[1] \o l[2]]

Table(segs) == LET h == Lo(Len(segs) - 1, 4) \o Concat([k \in DOMAIN segs |-> Lo(Words(segs[k]), 4)]) IN Padded(h)
Framed(segs) == Table(segs) \o Concat(segs)

Layouts == {"plain", "newer", "older", "far", "double"}
Encode(m, how) ==
  LET p == Parts(m)
      x == Extra(how)
      disc == Lo(p[1], 2) \o Zeros(6) \o [j \in 1..(8 * x[1]) |-> 170]
      more == Zeros(8 * x[2])
      root == StructPtr(0, 1 + x[1], 1 + x[2])
      leaf == Len(p) = 2
      body == IF leaf THEN [b |-> Padded(p[2])] ELSE Body(how, p[2], p[3])
      ptr(off) == IF leaf THEN (IF p[2] = <<>> THEN Zeros(8) ELSE ListPtr(off, Len(p[2]))) ELSE StructPtr(off, body.dw, body.pw)
      near == ptr(x[2]) IN
  IF how \in {"plain", "newer", "older"} \/ IsNull(near) THEN Framed(<<root \o disc \o near \o more \o body.b>>)
  ELSE IF how = "far" THEN Framed(<<root \o disc \o FarPtr(1, 0, FALSE), ptr(0) \o body.b>>)
  ELSE Framed(<<root \o disc \o FarPtr(1, 1, TRUE), Zeros(8) \o FarPtr(2, 1, FALSE) \o ptr(0), Zeros(8) \o body.b>>)

\* ------------------------------------------------------------------ names of brokers

Slash == 47
Slashes(t) == {k \in DOMAIN t : t[k] = Slash}
Named(pub, prv) == pub \o <<Slash>> \o prv
Public(t) == LET k == CHOOSE k \in Slashes(t) : \A j \in Slashes(t) : k <= j IN SubSeq(t, 1, k - 1)
Private(t) == LET k == CHOOSE k \in Slashes(t) : \A j \in Slashes(t) : k <= j IN SubSeq(t, k + 1, Len(t))
=============================================================================
