------------------------------ MODULE MCValues -------------------------------
(* Sorted and hashed sets of objects, for every total order and every hash   *)
(* function of the contents: both behave like the set of contents, whatever  *)
(* the order and the hashes are.  Different objects may have equal contents. *)
EXTENDS Values, TLC, Json, IOUtils
CONSTANTS NC, Depth
VARIABLES rank, hash, set, tree, bucket, last, hist
vars == <<rank, hash, set, tree, bucket, last, hist>>

Content == [i \in 1..(2 * NC - 1) |-> ((i - 1) % NC) + 1]
Objects == DOMAIN Content
Perms == {p \in [1..NC -> 1..NC] : \A i, j \in 1..NC : p[i] = p[j] => i = j}
Hashes == [1..NC -> {1, 2}]
Cmp(a, b) == LET x == rank[Content[a]]  y == rank[Content[b]] IN IF x < y THEN 0 - 1 ELSE IF x = y THEN 0 ELSE 1

(* Binary search in a sorted sequence: <<found, where>>. *)
RECURSIVE Search(_, _, _, _)
Search(t, v, lo, hi) ==
  IF lo > hi THEN <<FALSE, lo>>
  ELSE LET mid == (lo + hi) \div 2  c == Cmp(v, t[mid])
       IN IF c = 0 THEN <<TRUE, mid>> ELSE IF c < 0 THEN Search(t, v, lo, mid - 1) ELSE Search(t, v, mid + 1, hi)
Find(v) == Search(tree, v, 1, Len(tree))
InBucket(v) == {w \in bucket[hash[Content[v]]] : Content[w] = Content[v]}

Init == /\ rank \in Perms /\ hash \in Hashes
        /\ set = {} /\ tree = <<>> /\ bucket = [h \in {1, 2} |-> {}] /\ last = <<>> /\ hist = <<>>
Do(o, v) ==
  LET f == Find(v)  b == InBucket(v)  h == hash[Content[v]] IN
  /\ set' = SetOp(set, o, Content[v])
  /\ tree' = CASE o = "ins" /\ ~f[1] -> SubSeq(tree, 1, f[2] - 1) \o <<v>> \o SubSeq(tree, f[2], Len(tree))
               [] o = "del" /\ f[1] -> SubSeq(tree, 1, f[2] - 1) \o SubSeq(tree, f[2] + 1, Len(tree))
               [] OTHER -> tree
  /\ bucket' = CASE o = "ins" /\ b = {} -> [bucket EXCEPT ![h] = @ \cup {v}]
                 [] o = "del" -> [bucket EXCEPT ![h] = @ \ b]
                 [] OTHER -> bucket
  /\ last' = [want |-> SetAnswer(set, o, Content[v]),
              tree |-> IF o = "ins" THEN ~f[1] ELSE f[1], hash |-> IF o = "ins" THEN b = {} ELSE b # {}]
  /\ hist' = Append(hist, <<o, v>>)
  /\ UNCHANGED <<rank, hash>>
Next == /\ Len(hist) < Depth
        /\ \E o \in {"ins", "has", "del"}, v \in Objects : Do(o, v)
Spec == Init /\ [][Next]_vars

Range(q) == {q[i] : i \in 1..Len(q)}
Answers == last # <<>> => last.tree = last.want /\ last.hash = last.want
Contents == /\ {Content[v] : v \in Range(tree)} = set /\ Len(tree) = Cardinality(set)
            /\ \A i \in 1..Len(tree) - 1 : Cmp(tree[i], tree[i + 1]) = 0 - 1
            /\ {Content[v] : v \in bucket[1] \cup bucket[2]} = set /\ Cardinality(bucket[1]) + Cardinality(bucket[2]) = Len(tree)
(* The laws hold for the matrices of any order, equality and hash of contents, and only for those. *)
Ms == [i \in Objects |-> [j \in Objects |-> Cmp(i, j)]]
Eqs == [i \in Objects |-> [j \in Objects |-> Content[i] = Content[j]]]
Laws == hist = <<>> =>
  /\ OrderOk(Content, Ms)
  /\ EqualityOk(Content, Eqs, [i \in Objects |-> [j \in Objects |-> ~Eqs[i][j]]])
  /\ HashOk(Content, [i \in Objects |-> [j \in Objects |-> hash[Content[i]] = hash[Content[j]]]])
  /\ \A i, j \in Objects : i # j =>
       /\ \A w \in {0 - 1, 0, 1} : w # Ms[i][j] => ~OrderOk(Content, [Ms EXCEPT ![i][j] = w])
       /\ ~EqualityOk(Content, [Eqs EXCEPT ![i][j] = ~@], [x \in Objects |-> [y \in Objects |-> ~Eqs[x][y]]])
       /\ Content[i] = Content[j] => ~HashOk(Content, [x \in Objects |-> [y \in Objects |-> ~(x = i /\ y = j)]])
(* A cycle is no order. *)
Cycle == [i \in 1..3 |-> [j \in 1..3 |-> IF i = j THEN 0 ELSE IF (j - i + 3) % 3 = 1 THEN 0 - 1 ELSE 1]]
ASSUME ~OrderOk(<<1, 2, 3>>, Cycle)
(* Neither are two values before each other, nor different ones in the same place. *)
ASSUME ~OrderOk(<<1, 2>>, <<<<0, 0 - 1>>, <<0 - 1, 0>>>>)
ASSUME ~OrderOk(<<1, 2>>, <<<<0, 0>>, <<0, 0>>>>)
PrintScript == (IOEnv.GEN = "1" /\ Len(hist) = Depth /\ (\A i \in 1..NC : rank[i] = i /\ hash[i] = 1)) =>
               PrintT(<<"SCRIPT", ToJson([ops |-> hist])>>)
=============================================================================
