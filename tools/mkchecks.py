#!/usr/bin/env python3
"""Writes checks.json: the harnesses, configurations and bounds of each check."""
import json,os
C={}
SCAN={"(*github.com/HannesKimara/cddlc/lexer.Lexer).Scan":"hparse.Scan"}
NODE={"go/format.Node":"hgen.Node"}
def h(id,fn,quick,thorough,reach,bound,pkg=None,stubs=None,**kw):
    c=C.setdefault(id,{"harnesses":[]})
    pkg=pkg or {"L":"hlex","P":"hparse"}.get(id[0])
    thorough=[t for t in thorough if t not in quick]
    x=dict(pkg=pkg,fn=fn,quick=quick,thorough=thorough,reach=reach.split(),bound=bound)
    if stubs: x["stubs"]={"set":stubs}
    x.update(kw); C[id]["harnesses"].append(x)
def assume(id,*texts): C[id].setdefault("assumptions",[]).extend(texts)
def p(**kw): return kw

h("L01","ScanAll",[p(N=5)],[p(N=7)],"end","every byte string of up to 5 bytes (thorough 7)")
FR=[p(N=2,T=t) for t in (1,2,3,4)]; FR3=[p(N=3,T=t) for t in (1,2,3,4)]
h("L02","Tiling",[p(N=4)]+FR,[p(N=6)]+FR3,"eof text comment other",
  "every valid UTF-8 string of up to 4 bytes (thorough 6), and of 2 (3) symbolic bytes inside four longer frames of text, comments and lines")
h("L03","Positions",[p(N=4)]+FR,[p(N=6)]+FR3,"eof line2","as for L02")
h("L04","Kinds",[p(N=9,K=1),p(N=4,K=9)],[p(N=10,K=1),p(N=5,K=9)],"ctlop float",
  "the first token of every ASCII string of up to 9 bytes (thorough 10), all tokens of every ASCII string of up to 4 (5) bytes")
h("L05","Memory",[p(N=4)],[p(N=6)],"end","every source of up to 4 (6) bytes inside a larger buffer")
h("L05","Suffix",[p(N=4),p(N=3,T=1)],[p(N=5),p(N=4,T=1)],"eof tok","every source of up to 4 (5) bytes")
h("L05","Independent",[p(N=2)],[p(N=3)],"end","every pair of sources of up to 2 (3) bytes, scanned alternately")
h("L06","Unclosed",[p(N=3)]+[p(N=3,T=t) for t in (1,2,3,4,5)],[p(N=4)]+[p(N=4,T=t) for t in (1,2,3,4,5,6)],"closed unclosed",
  "every valid UTF-8 text of up to 3 (4) bytes, alone and inside five (six) sources with and without open texts")
h("L06","TextValue",[p(N=6)],[p(N=12)],"end","every text literal of up to 6 (12) bytes")

# A=0 every token, 1 all tokens of schemas, 2 one token of each kind, 3 the tokens that shape nesting
h("P01","Returns",[p(A=0,N=3,T=1)]+[p(A=0,N=2,T=t) for t in (0,2,3,4,5,6)]+[p(A=2,N=4,T=1),p(A=3,N=4,T=2),p(A=2,N=5,T=0)],
  [p(A=0,N=3,T=t) for t in range(7)]+[p(A=2,N=5,T=1),p(A=3,N=5,T=2),p(A=3,N=5,T=3),p(A=2,N=6,T=0)],"accepted rejected",
  "every sequence of tokens, with any line breaks and adjacency, of up to: 3 of all tokens as the value of a rule, 2 in six other places (thorough 3 in each), 4 or 5 (5 or 6) of the main kinds of tokens",stubs="scan")
h("P01","Chains",[p(N=3,RETURNS=1)],[p(N=4,RETURNS=1)],"accepted rejected","every range between names or numbers in a source in which 3 (4) names are each defined as any of them, a number or a type",stubs="scan")
h("P01","ReturnsText",[p(N=4,T=0),p(N=3,T=1),p(N=2,T=2),p(N=2,T=3),p(N=3,T=4)],[p(N=4,T=t) for t in (0,1,2,3,4)]+[p(N=3,T=1,ASCII=0)],"accepted rejected",
  "with the real lexer, every ASCII text of 4 bytes, and of 2 or 3 (4) bytes in four places of a source")
h("P02","Represented",[p(A=0,N=3,T=1,NL=1),p(A=0,N=3,T=2),p(A=0,N=2,T=3),p(A=0,N=4,T=0),p(A=2,N=4,T=1),p(A=2,N=3,T=3),p(A=2,N=3,T=4),p(A=2,N=2,T=5),p(A=2,N=3,T=6),p(A=3,N=5,T=1)],
  [p(A=0,N=3,T=t) for t in (2,3,4,5)]+[p(A=0,N=4,T=1),p(A=0,N=5,T=0),p(A=2,N=4,T=3),p(A=2,N=4,T=6),p(A=3,N=5,T=2),p(A=3,N=6,T=1)],"accepted",
  "every accepted sequence of tokens of up to: 3 of all tokens as the value of a rule or in a group, 2 in an array (thorough 3 in four places, 4 as a value), 4 (5) for a whole source, 4 or 5 (6) of the main kinds of tokens",stubs="scan")
h("P03","WellFormed",[p(A=1,N=4,T=1),p(A=1,N=3,T=2),p(A=1,N=3,T=3),p(A=1,N=2,T=4),p(A=2,N=4,T=5),p(A=3,N=6,T=1),p(A=3,N=5,T=2),p(A=3,N=5,T=5),p(A=2,N=3,T=6),p(A=2,N=6,T=0)],
  [p(A=1,N=4,T=2),p(A=1,N=4,T=3),p(A=1,N=3,T=4),p(A=2,N=5,T=1),p(A=2,N=6,T=1),p(A=3,N=7,T=1),p(A=3,N=6,T=2),p(A=2,N=4,T=6),p(A=1,N=5,T=0)],"accepted",
  "every well-formed schema with up to 4 tokens of the language as the value of a rule, 3 in a group or array, 2 as the value of a map entry (thorough 4, 4, 3), 6 (7) of the tokens that shape nesting, 6 of the main kinds for a whole source",stubs="scan")
h("P04","Resolve",[p(N=4,T=1),p(N=3,T=2),p(N=5,T=0),p(N=3,T=4,E=1),p(N=3,T=1,E=1)],[p(N=5,T=1),p(N=4,T=2),p(N=6,T=0),p(N=4,T=4,E=1),p(N=4,T=3)],"undefined defined",
  "all assignments of names to uses and definitions in sources with up to 5 (6) symbolic tokens",stubs="scan")
h("P04","Bounds",[p()],[p()],"undefined defined","names as range bounds, defined before, after, through other names or not at all",stubs="scan")
h("P05","Redefine",[p(N=3,E=1),p(N=2,S=2,E=1)],[p(N=4,E=1),p(N=3,S=2,E=1),p(N=2,S=3,E=1)],"redefined extended",
  "every sequence of 3 (4) definitions of three names with each assignment, in one source, and of 2 (3) in each of two sources sharing an environment",stubs="scan")
def lit(fn,quick,thorough,reach,bound): h("P06",fn,quick,thorough,reach,bound)
lit("Integer",[p(B=10,N=n) for n in (1,3,18)]+[p(B=16,N=8),p(B=2,N=32),p(B=8,N=21)],[p(B=10,N=n) for n in range(1,19)]+[p(B=16,N=n) for n in range(1,16)]+[p(B=2,N=n) for n in (1,8,48,63)]+[p(B=8,N=n) for n in (1,7,14)],"fits",
  "decimal integers of 1 to 18 digits, hexadecimal of 8 (1 to 15), binary of 32 (1 to 63), octal of 21 (1 to 14): every value fits")
lit("Integer",[p(B=10,N=19),p(B=16,N=16),p(B=8,N=22),p(B=2,N=64)],[p(B=16,N=17),p(B=2,N=65)],"fits over","decimal integers of 19 digits, hexadecimal of 16 (17), octal of 22, binary of 64 (65), which may or may not fit")
lit("Integer",[p(B=10,N=20,PRE=14),p(B=10,N=21,PRE=17)],[p(B=10,N=20,PRE=12),p(B=10,N=24,PRE=20)],"over","decimal integers of 20 and more digits with a fixed beginning")
lit("Bound",[p(B=10,N=n) for n in (1,3,18,19)]+[p(B=16,N=16)],[p(B=10,N=n) for n in (2,5,9,17)]+[p(B=16,N=n) for n in (1,4,12)]+[p(B=2,N=64),p(B=8,N=21)],"fits","upper occurrence bounds of 1 to 19 decimal or 16 hexadecimal digits")
lit("Bound",[p(B=10,N=20,PRE=14),p(B=16,N=17,LOWER=1),p(B=10,N=19,LOWER=1)],[p(B=10,N=20,PRE=12)],"fits over","occurrence bounds of more digits, which may or may not fit")
lit("TagNumber",[p(N=3),p(N=19),p(N=2,MAJOR=1),p(N=19,MAJOR=1)],[p(N=n) for n in (1,2,5,9,18)],"fits","tag numbers of up to 19 digits, major numbers of up to 19")
lit("TagNumber",[p(N=20,PRE=14)],[p(N=20,PRE=13)],"fits over","tag numbers of 20 digits with a fixed beginning")
lit("Fraction",[p(W=1,F=1),p(W=1,F=6),p(W=2,F=2),p(W=6,F=6),p(W=8,F=7)],[p(W=1,F=14),p(W=9,F=6),p(W=3,F=12)],"value","fractions of up to 15 digits in all")
lit("Text",[p(N=n) for n in (0,3,8)],[p(N=n) for n in (1,5,20)],"value","texts of up to 8 (20) bytes")
h("P07","Occurrence",[p(N=2,M=3),p(N=4,M=6),p(N=9,M=4),p(N=18,M=19)],[p(N=1,M=1),p(N=6,M=9),p(N=3,M=12)],"detached bounded unbounded optional","every marker with bounds of up to 18 and 19 symbolic digits, attached or not, with the real lexer")
h("P08","Operands",[p(T=1),p(T=3)],[p(T=2),p(T=4),p(T=5)],"good bad","every pair of operands of every operator, literal, type or name (defined as a number, as a type, through another name, or not), as the value of a rule and inside a group, array, map or tag",stubs="scan")
h("P08","Chains",[p(N=3),p(N=3,REV=1)],[p(N=4)],"good bad","every range between names or numbers in a source in which 3 (4) names are each defined as any of them, a number or a type, in any order",stubs="scan")
h("P09","Commented",[p(NL=2,N=5,T=0),p(NL=2,N=3,T=1)],[p(NL=2,N=6,T=0),p(NL=2,N=4,T=1)],"between trailing","every schema of up to 5 (6) tokens, comments among them, alone and with 3 (4) tokens as the value of a rule followed by others",stubs="scan")
h("P09","Commented",[p(NL=2,N=3,T=2,A=2),p(NL=2,N=3,T=3,A=2),p(NL=2,N=3,T=4,A=3),p(NL=2,N=4,T=3,A=3)],[p(NL=2,N=3,T=2),p(NL=2,N=3,T=3),p(NL=2,N=4,T=2,A=3),p(NL=2,N=5,T=3,A=3)],"inside","3 or 4 (5) tokens, comments among them, inside a group, array or map",stubs="scan")
h("P09","Uncommented",[p(A=2,N=2,T=1,C=1),p(A=2,N=1,T=1),p(A=1,N=1,T=6),p(A=3,N=3,T=3,C=1)],[p(A=1,N=2,T=1,C=1),p(A=2,N=3,T=1,C=1),p(A=3,N=3,T=2,C=1),p(A=2,N=2,T=4,C=1)],"accepted rejected","every source of a rule with up to 3 symbolic tokens, in error or not, with up to two comment lines at each of three places between rules",stubs="scan")
h("P10","Diagnostics",[p(A=0,N=2,T=1),p(A=0,N=2,T=2),p(A=0,N=2,T=3),p(A=0,N=2,T=4),p(A=2,N=3,T=1,NL=1),p(A=2,N=3,T=6),p(A=2,N=4,T=0)],[p(A=0,N=3,T=1),p(A=0,N=3,T=3),p(A=0,N=3,T=4),p(A=2,N=4,T=1),p(A=3,N=5,T=1),p(A=2,N=5,T=0)],"accepted rejected",
  "every sequence of up to 2 (3) of all tokens in four places, and up to 4 (5) of the main kinds",stubs="scan")
h("P10","DiagnosticsText",[p(N=3,T=2),p(N=3,T=1)],[p(N=4,T=1),p(N=4,T=2),p(N=4,T=3)],"accepted rejected","with the real lexer, every 3 (4) ASCII bytes as the value of a rule or inside an array")
h("P11","Conjunction",[p(K=1,N=1,A=1),p(K=2,N=2,A=2),p(K=1,N=2,A=2),p(K=2,N=1,A=2)],[p(K=2,N=1,A=1),p(K=1,N=2,A=1),p(K=3,N=2,A=3),p(K=2,N=2,T=3,A=2),p(K=2,N=2,T=4,A=3)],"accepted rejected first",
  "every pair of sources with up to 2 symbolic tokens of the main kinds each (thorough: 3 and 2, in rules, arrays and maps)",stubs="scan")
h("A01","Spans",[p(A=0,N=2,T=1),p(A=2,N=3,T=1),p(A=2,N=3,T=2,NL=0),p(A=2,N=2,T=4),p(A=2,N=2,T=5),p(A=2,N=2,T=6),p(A=0,N=3,T=0)],[p(A=0,N=3,T=1,NL=0),p(A=2,N=4,T=1,NL=0),p(A=2,N=3,T=4),p(A=2,N=3,T=6,NL=0),p(A=3,N=4,T=3),p(A=0,N=4,T=0)],"node",
  "every node of every tree accepted from 2 or 3 (3 or 4) symbolic tokens in six places of a source, with any adjacency and line breaks",pkg="hparse",stubs="scan")
h("A01","LiteralSpan",[p(B=16,N=15),p(B=16,N=16),p(B=10,N=19),p(B=2,N=9),p(B=10,N=2,F=4),p(B=0,N=4),p(B=16,N=16,AT=1),p(B=16,N=15,AT=2),p(B=10,N=18,AT=2)],[p(B=8,N=21),p(B=2,N=60),p(B=0,N=12),p(B=10,N=6,F=6)],"literal","literals of up to 21 (60) symbolic digits in all notations, fractions and texts, with the real lexer",pkg="hparse")
h("A02","Walked",[p(A=0,N=2,T=1),p(A=2,N=3,T=1),p(A=2,N=3,T=2),p(A=2,N=3,T=6,D=24),p(A=1,N=2,T=1,EACH=1),p(A=0,N=3,T=0)],[p(A=0,N=3,T=1),p(A=3,N=4,T=1),p(A=0,N=4,T=0),p(A=2,N=3,T=4),p(A=2,N=3,T=5),p(A=2,N=2,T=2,EACH=1)],"walked declined",
  "every tree accepted from 2 or 3 (3 or 4) symbolic tokens in four (six) places of a source, with a visitor that declines any one of the first 11 (23) nodes, or any subset of the nodes",pkg="hparse",stubs="scan")
h("A01","Spans",[p(VALUES=1,K=2,WIDE=1),p(VALUES=1,K=6)],[p(VALUES=1,K=4,WIDE=1,W=4,F=4)],"node","every node of schemas made of templates with symbolic names, numbers, and texts and comments of 2 (4) bytes in UTF-8 or 6 in ASCII, with the real lexer",pkg="hparse")
h("A02","Walked",[p(VALUES=1,D=24,W=1)],[p(VALUES=1,D=40,W=1)],"walked declined","every tree of schemas made of templates with symbolic names, numbers, texts and comments",pkg="hparse")
h("A02","WalkedAny",[p(DEPTH=2,EACH=1),p(DEPTH=3,D=3)],[p(DEPTH=3,EACH=1)],"walked declined","every tree made by hand of 19 kinds of nodes to depth 3 with up to 3 children, one of them deeper than the others, at symbolic places that may coincide",pkg="hparse")
h("A03","Formatted",[p(A=0,N=3,T=1,GLUE=0),p(A=2,N=4,T=1,GLUE=0),p(A=2,N=3,T=2,GLUE=0)],[p(A=1,N=3,T=2,GLUE=0),p(A=2,N=3,T=6,GLUE=0)],"name number choice group",
  "every node of every tree accepted from 3 or 4 symbolic tokens as the value of a rule or in a group",pkg="hparse",stubs="scan")
h("A03","Formatted",[p(A=2,N=2,T=1)],[],"name number group","the same for 2 tokens with any adjacency",pkg="hparse",stubs="scan")
h("A03","FormattedAny",[p(PRE=1),p(W=12)],[p(W=18,P=3,K=6,E=30)],"name number choice group","names, numbers of up to 12 (18) digits, choices of these and groups of up to 11 (29) entries, made by hand at symbolic places",pkg="hparse")
h("A04","Sockets",[p(N=n) for n in (0,1,2,5)],[p(N=n) for n in (3,8,20)],"","every name of 0 to 5 (20) bytes",pkg="hbase")
h("T01","Words",[p(N=n) for n in (3,4,5,7,8)],[p(N=n) for n in (0,1,2,6,9,12)],"","every word of 3 to 8 (0 to 12) bytes",pkg="hbase")
h("T01","Classes",[p(N=3),p(N=5)],[p(N=7)],"class none","every token value, with every literal of up to 5 (7) bytes",pkg="hbase")
h("T01","Printed",[p()],[p(LO=300,HI=300)],"end name","every token value from -40 to 140 (-300 to 300)",pkg="hbase")
h("T01","Distinct",[p()],[],"end","every pair of predefined names",pkg="hbase")
h("T02","Moves",[p()],[],"end","all 64-bit positions and lengths",pkg="hbase")
h("T02","Prints",[p(LIMIT=99)],[p(LIMIT=9999)],"file column line","positions with up to 2 (4) digits and files of up to 2 bytes",pkg="hbase")
h("T02","Ranges",[p(LIMIT=9,F=0)],[p(LIMIT=99,F=1)],"same lines","ranges with up to 1 (2) digits",pkg="hbase")
h("E01","Symbols",[p(N=3,ENVS=2,LEN=1),p(N=2,ENVS=1,LEN=3)],[p(N=4,ENVS=1,LEN=1),p(N=3,ENVS=2,LEN=2)],"new again","every sequence of 3 additions over 2 environments (4 over one), with names of up to 1 byte (2 or 3)",pkg="hbase")
h("R01","Comparisons",[p(T=t) for t in range(10)],[],"end","all values of the ten integer types",pkg="hbase")
h("R01","Comparisons",[p(T=10),p(T=11)],[],"end nan","all values of the two floating-point types",pkg="hbase")
h("R01","Musts",[p()],[],"end","all cases",pkg="hbase")
h("R02","Sizes",[p()],[],"end","all limits and values of 16 fixed-width types",pkg="hbase")
exec(open(os.path.join(os.path.dirname(__file__),"mkchecks2.py")).read()) if os.path.exists(os.path.join(os.path.dirname(__file__),"mkchecks2.py")) else None
json.dump(dict(stubsets=dict(scan=SCAN,node=NODE,gen=dict(SCAN,**NODE),cmd={"go/format.Node":"hcmd.Node"}),checks={k:C[k] for k in sorted(C)}),open("/verif/checks.json","w"),indent=1)
