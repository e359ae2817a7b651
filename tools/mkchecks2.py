# Values: the same questions about templates with symbolic names, numbers, texts and comments, with the real lexer.
V=[p(W=2,F=2,K=1),p(W=18,F=1,K=2)]; VT=[p(W=1,F=1,K=0),p(W=5,F=4,K=3),p(W=9,F=3,K=5),p(W=15,F=1,K=8)]
VB="for 25 templates of schemas, with the real lexer, every choice of names and texts of 1 and 2 (0 to 5) bytes, integers of 2 and 18 (1 to 15) digits, numbers with 2 digits before and 1 and 2 (1 to 4) after the point"
h("P02","RepresentedValues",V,VT,"accepted",VB)
h("P03","WellFormedValues",V,VT,"accepted",VB)
h("P09","CommentedValues",[p(K=0),p(K=1),p(K=3)],[p(K=2),p(K=8)],"between trailing","four templates of schemas with comments of up to 3 (8) ASCII bytes, with the real lexer")
h("P04","Named",[p(K=1),p(K=2),p(K=1,BROKEN=1),p(K=2,BROKEN=1)],[p(K=3),p(K=5),p(K=3,BROKEN=1)],"undefined defined","13 templates of sources with symbolic names, with the real lexer: every assignment of names of 1 and 2 (3 and 5) bytes to definitions and uses, also when what follows the rules is malformed in one of 5 ways")
h("P05","Redefined",[p(K=1),p(K=2)],[p(K=3),p(K=5)],"redefined end","6 templates of sources with up to 3 definitions of symbolic names, with the real lexer: every choice of names of 1 and 2 (3 and 5) bytes")
h("P10","DiagnosticsValues",[p(K=1)],[p(K=3,W=5,F=5)],"accepted rejected","20 templates of sources with integers around 2^63 and 2^64 in every place, with the real lexer")
h("P11","Separate",[p(K=1)],[p(K=2)],"accepted rejected","every pair of 4 templates parsed before and 37 parsed after, with symbolic names, numbers, texts and comments, by parsers that share nothing")
h("P08","OperandsValues",[p(W=1,F=1,K=1),p(W=18,F=2,K=2)],[p(W=5,F=3,K=0),p(W=9,F=4,K=4)],"good bad","44 pairs of operands and operators in seven places of a source, with the real lexer: every integer of 1 and 18 (5 and 9) digits, fraction of 1 and 2 (3 and 4), text of 1 and 2 (0 and 4) bytes")
# patterns of operands (o), operators (x), prefixes (p) and separators (s)
PB="every sequence of tokens of the forms oxoxo, poxo, (oxoso) and ppoxo%s, with o any operand, x any operator or separator, p any prefix, s any separator"
Q=[p(T=t) for t in (10,11,13,14)]; QT=[p(T=12),p(T=15)]
for id,fn,reach in (("P01","Returns","accepted rejected"),("P02","Represented","accepted"),("P03","WellFormed","accepted"),("P10","Diagnostics","accepted rejected")):
    q=Q+[p(T=15)] if id=="P03" else Q
    h(id,fn,q,QT,reach,PB%(" and oxpoxo (thorough: [poxopo])" if id=="P03" else " (thorough: [poxopo] and oxpoxo)"),stubs="scan")

for id,m,reach in (("G01",0,"type import int refused"),("G02",1,"type field int")):
    P=lambda **kw: dict(kw,MEANING=m)
    h(id,"Values",[P(W=2,K=1)],[P(W=5,K=1),P(W=2,K=2)],reach,"9 templates of schemas, with the real lexer: every choice of names of 1 (2) bytes, integers of 2 (5) digits",pkg="hgen",stubs="node")
    h(id,"Names",[P(K=2),P(K=3)],[P(K=4),P(K=5)],"type","6 templates of schemas with one name each, with the real lexer: every name of 2 and 3 (4 and 5) bytes",pkg="hgen",stubs="node")
    h(id,"Texts",[P(K=0,UPTO=3),P(K=1)],[P(K=2)],"","every text of up to 1 (2) ASCII bytes",pkg="hgen",stubs="node")
    h(id,"Numbers",[P()],[],"type","3 templates with numbers of 15 to 25 digits, the last two of any value",pkg="hgen",stubs="node")
    h(id,"Shapes",[P(T=8)],[],"refused","one shape of schemas that the generator refuses",pkg="hgen",stubs="gen")
    h(id,"Shapes",[P(T=t) for t in (0,1,2,3,4,5,7)],[P(T=t) for t in (6,9)],"type",
      "seven (nine) shapes of schemas with up to 4 symbolic tokens: every combination of predefined types, literals, keys, markers and nesting",pkg="hgen",stubs="gen")

# the commands, with the operating system, the decoders and the formatter replaced
cmd=lambda id,fn,quick,thorough,reach,bound,**kw: h(id,fn,quick,thorough,reach,bound,pkg="hcmd",stubs="cmd",**kw)
cmd("C02","Generate",[p(BUILDS=1,FILES=1,FAULTS=2),p(BUILDS=1,FILES=2,FAULTS=1),p(BUILDS=2,FILES=1,PKGS=1,STATES=1,FAULTS=1),p(BUILDS=2,FILES=1,FAULTS=0)],[p(BUILDS=1,FILES=3,PKGS=1,FAULTS=1),p(BUILDS=2,FILES=1,FAULTS=1)],"failing other rejected written","one build of up to two (three) of 13 files or two of one, source and output directories present, missing or files, outputs existing or not, every one or two of the operations failing")
cmd("C02","Accepts",[p(K=1),p(K=2)],[],"written rejected","every source with up to two arbitrary bytes as the value of a rule")
cmd("C02","Header",[p(K=2),p(K=4)],[p(K=7)],"written","every argument or program name of 2 and 4 (7) ASCII bytes")
cmd("C03","Init",[p(FAULTS=1,RACES=1),p(FAULTS=3,RACES=1)],[],"exists created failed","three working directories, four contents of an existing cddlc.json or none, every one to three of the operations failing, another process creating the file before any operation")
cmd("C04","Discover",[p(FAULTS=1),p(FAULTS=2)],[p(FAULTS=4)],"default broken used","three working directories, cddlc.json and cddlc.yaml missing, valid, malformed, empty or a directory each, twelve other files or none, every one or two (four) of the operations failing")
cmd("C05","Reported",[p(T=t,K=2,CMD=c) for t in range(7) for c in (0,1)]+[p(T=0,K=3,CMD=1),p(T=1,K=3,CMD=0)],[p(T=t,K=3,CMD=1) for t in range(7)],"rejected","every content of 2 and 3 (3) bytes at one place of two (seven) sources, and of 2 bytes in seven, for generate and parse")
cmd("C08","Lexed",[p(T=t,K=2,FAULTS=1) for t in range(6)]+[p(T=0,K=3)],[p(T=t,K=3) for t in range(1,6)],"legal illegal","every content of 2 (3) bytes at one place of six sources, any operation failing")
cmd("C08","Arguments",[p()],[],"","six lists of arguments")
cmd("C09","Session",[p(T=t,K=3) for t in (0,1,2,3,4,6,7)]+[p(T=1,K=2,LEX=1)],[p(T=t,K=4) for t in (0,1,2,3,4,6,7)],"errors end","every content of 3 (4) bytes at one place of seven sessions of up to 6 lines")
cmd("C09","Session",[p(T=5,K=3)],[p(T=5,K=4)],"errors exit","every content of 3 (4) bytes of a line before the session is ended")
cmd("C07","Plugins",[p(N=2,FAULTS=1)],[p(N=3,FAULTS=2),p(N=4,FAULTS=1)],"good bad","up to 2 (4) plugins, with or without a name and a remote, with any of seven paths, every one (two) of the operations failing")
conf=lambda fn,quick,thorough,reach,bound: h("C06",fn,quick,thorough,reach,bound,pkg="hconf")
conf("Loaded",[p(K=2,BUILDS=1,OPTIONS=0),p(K=30,ALL=1),p(K=6,PART=2,BUILDS=3)],[p(K=3,BUILDS=1,OPTIONS=1),p(K=1,PART=3,PLUGINS=3),p(K=1,ALL=1,BUILDS=3,PLUGINS=3,OPTIONS=2)],"loaded","files in three places in JSON and YAML, the latter in flow and block style, with any subset of the keys in two orders, up to three builds, one (three) plugins and one (two) options, every value of 1 to 30 printable characters without quotes and backslashes")
conf("Loaded",[p(K=1,ALL=1,BUILDS=2,PLUGINS=2,OPTIONS=2,FAULTS=1)],[p(K=1,ALL=1,BUILDS=2,PLUGINS=2,OPTIONS=2,FAULTS=2)],"loaded failed","the same with two of each, any one (two) of the operations failing")
conf("Truncated",[p(K=2,ALL=1)],[],"name missing cut","every proper prefix of files in JSON and flow-style YAML with all keys, five other names and a missing file")
conf("Initial",[p()],[],"same","the default configuration")
assume("C06","encoding/json and yaml are replaced by functions generated from the tags of the configuration's types on every run, for documents of texts, lists and maps; native replays use the real ones.")
h("C01","Options",[p(K=9)],[],"supported unsupported","every name of 9 bytes",pkg="hgen")
h("C01","Options",[p(K=k) for k in (0,1,8,10)],[p(K=40)],"unsupported","every name of 0, 1, 8 and 10 (40) bytes",pkg="hgen")
assume("C02","File names, configurations and most schemas are chosen from lists; go/format is replaced.")
assume("C04","The decoders of JSON and YAML are replaced.")
# long sources
LG="every byte (two bytes) at one place of nine long sources: of 120 (600) lines, of 2400 (12000) line breaks, in a name, text, comment, number, run of blanks or brackets of 700 to 4000 (3500 to 20000) bytes"
LF=[p(N=1,T=t,X=120,K=99999) for t in range(5,14)]; LF3=[p(N=2,T=t,X=120,K=99999) for t in range(5,14)]+[p(N=1,T=t,X=600,K=99999) for t in range(5,14)]
for id,fn,r in (("L01","ScanAll","end"),("L02","Tiling","eof"),("L03","Positions","eof"),("L04","Kinds","eof"),("L05","Memory","end"),("L05","Suffix","eof tok")):
    h(id,fn,LF,LF3,r,LG,steps=100000000)
LG="long sources: brackets nested up to 100 (150) deep and lists, choices, rules and comments of 100 (150) elements, names, texts and comments of 100 times (150 times) some bytes, with symbolic names, numbers, texts and comments in them, with the real lexer"
LP=[p(K=1,W=1,F=1,KW=1,LONG=100)]; LPT=[p(K=1,W=1,F=1,KW=1,LONG=150)]
for id,fn,r in (("P02","RepresentedValues","accepted"),("P03","WellFormedValues","accepted"),("P04","Named","undefined defined"),("P05","Redefined","redefined end"),("P09","CommentedValues","between trailing"),("P10","DiagnosticsValues","rejected")):
    h(id,fn,LP,LPT,r,LG,steps=100000000)
LP,LPT=([dict(x[0],VALUES=1)] for x in (LP,LPT))
h("A01","Spans",LP,LPT,"node",LG,pkg="hparse",steps=100000000)
h("A02","Walked",[dict(LP[0],D=24,LONG=40)],[dict(LP[0],D=200,LONG=40),dict(LPT[0],D=24)],"walked declined",LG,pkg="hparse",steps=100000000)
cmd("C09","Session",[p(T=8,K=1,LINE=70000),p(T=9,K=1,LINE=40)],[p(T=8,K=2,LINE=70000),p(T=9,K=1,LINE=100)],"errors end","every byte (two bytes) after a line of 70000 bytes and after 40 (100) lines",steps=100000000)
GB="long schemas with 40 (120) rules, fields, names of some hundred bytes or levels of nesting, one name or number in them symbolic, with the real lexer"
for id,m,r in (("G01",0,"type import int"),("G02",1,"type field int")):
    h(id,"Long",[p(K=1,W=1,LONG=40,MEANING=m)],[p(K=1,W=1,LONG=120,MEANING=m)],r,GB,pkg="hgen",stubs="node",steps=100000000)
cmd("C02","Many",[p(LONG=10),p(LONG=6,FAULTS=1)],[p(LONG=50),p(LONG=20,FAULTS=1)],"written rejected","a directory of 10 (50) schemas, one of them of 10 (50) rules and one of any byte, and as many other files; of 6 (20) with any one of the operations failing",steps=100000000)
for t,ls,lt in ((7,(9,99,1000),(9999,)),(8,(30,),(300,)),(9,(40,),(150,))):
    for id,fn,r,cs in (("C05","Reported","rejected",(0,1)),("C08","Lexed","legal illegal",(0,))):
        cmd(id,fn,[p(T=t,K=1,LONG=n,CMD=c) for n in ls for c in cs],[p(T=t,K=1,LONG=n,CMD=c) for n in lt for c in cs],r,"every byte after 9 to 1000 (9999) lines, after 30 (300) tokens on its line, and after 40 (150) errors",steps=100000000)
h("E01","Symbols",[p(N=1,LEN=2,FILL=100,ENVS=1)],[p(N=1,LEN=3,FILL=150,ENVS=1)],"new again","every addition of a name of up to 2 (3) bytes after 100 (150) others",pkg="hbase",steps=100000000)
cmd("C08","Lexed",[p(T=10,K=1,LONG=255)],[p(T=10,K=2,LONG=1023)],"illegal","every byte (two bytes) after 255 (1023) illegal ones",steps=100000000)
