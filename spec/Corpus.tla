---------------------------- MODULE Corpus ----------------------------
(* The concrete instance TLC explores: a table of grammar nodes, a table  *)
(* of token definitions and a list of root grammars, read from the JSON   *)
(* file named by the environment variable CORPUS.                         *)
EXTENDS TLC, Json, IOUtils
Corpus == JsonDeserialize(IOEnv.CORPUS)
Node   == Corpus.node      \* sequence of AST nodes, children named by index
Tok    == Corpus.tok       \* sequence of token definitions
Ctl    == Corpus.ctl     \* the control characters TLA+ source cannot spell
Root   == Corpus.root      \* sequence of root grammars
=======================================================================
