ASSUMPTIONS = []
def S(x): return '"' + x.replace("\\","\\\\").replace('"','\\"').replace("\n","\\n") + '"'
D="mut x := 1\nb := x is 1\nf(a: Int) Int { return a }\ng() { noop }\n"
DE=D+"s := \"q\"\nr := 'r'\nfl := 1.5\np := &x\nnamespace n {\nv := 3\n}\n"
# no warning by itself
DW="external f(a: Int) Int\nmut x := 1\nx = f(x)\nb := x is 1\ng() { noop }\ns := \"q\"\nif b and (s is \"q\") {\ng()\n}\n"
K_T, K_INC, K_IF, K_WHILE, K_ELIF, K_ELSE, K_BREAK, K_CONTINUE, K_RETURN, K_UNREACH, K_NOOP, K_RETBARE, K_DEF = range(13)
def KS(*k): return ",".join(map(str, k))
G=["G_DEF","G_MUT","G_SET","G_IF","G_WHILE","G_FUNC","G_CALL","G_RET","G_NS","G_USE","G_ANNOT","G_ALIAS","G_EXTERNAL","G_FUNCP","G_EXPDEF","G_EXPFUNC","G_ELSE"]
def LIT(name, kind, kb, alpha, time=100, **kw):
    tiers = kw.pop("tiers", ("quick","thorough"))
    d = dict(KB=kb, MINB=kw.pop("MINB", 1), ALPHA=CS(alpha)); d[kind] = 1
    for k in ("PRE", "POST"):
        if k in kw: d[k] = CS(kw.pop(k))
    d.update(kw)
    return dict(name=name, src="lit.c", defs=d, time=time, covers=["valid", "value"], tiers=tiers, sx=[])
def CS(x): return '"' + "".join('\\%03o' % b if b < 32 or b > 126 or chr(b) in '"\\?' else chr(b) for b in x.encode()) + '"'
def PR(name, ns, kinds, xs, cxs="CALL", time=200, covers=("valid",), **kw):
    tiers = kw.pop("tiers", ("quick","thorough")); bounds = kw.pop("bounds","")
    d = dict(NS=ns, KINDS=",".join("G_"+k for k in kinds.split()), XS=",".join("X_"+k for k in xs.split()), CXS=",".join("X_"+k for k in cxs.split()))
    d.update(kw)
    return dict(name=name, src="progs.c", defs=d, time=time, covers=list(covers), tiers=tiers, bounds=bounds)
FS = '{"-c"},{"-S","-q"},{"-E","--werror"},{"--c-backend"},{"--c-backend","--werror"},{"-q"},{"--werror"}'
FG = '{"-g"},{"-g","-O3"}'
FA = '{"-g"},{"--color"},{"-q"},{"--llvm-no-verify"},{"-O1"},{"-O2"},{"-O3"},{"-g","--llvm-no-verify"},{"--color","-q"},{"-O2","-q"}'
PROPS = {
"P09": {"jobs": [
 dict(name="binary", src="types.c", defs={}, time=200, covers=["valid","invalid"]),
 dict(name="plain", src="types.c", defs=dict(PLAIN=1,CTX=1), time=200, covers=["valid","invalid"]),
 dict(name="unary", src="types.c", defs=dict(UN=1,CTX=1), time=200, covers=["valid","invalid"]),
 dict(name="context", src="types.c", defs=dict(CTX=1), time=200, covers=["valid","invalid"]),
]},
"P10": {"jobs": [
 PR("vars3", 3, "DEF MUT SET USE ANNOT", "INT BOOL VAR VOID", ACCEPT=1, covers=["valid","invalid"]),
 PR("vars4b", 4, "DEF MUT SET IF WHILE USE", "INT VAR", ACCEPT=1, covers=["valid","invalid"]),
 PR("vars4f", 4, "DEF MUT SET FUNC USE", "INT VAR", ACCEPT=1, covers=["valid","invalid"]),
 PR("exp4", 4, "DEF EXPDEF MUT SET IF", "INT VAR", ACCEPT=1, covers=["valid","invalid"]),
 PR("any3", 3, "DEF MUT SET USE", "INT VAR", ACCEPT=1, FULL=1, covers=["valid","invalid"]),
 PR("refs4", 4, "MUT DEF SET ANNOT", "INT REF DEREF VAR", ACCEPT=1, covers=["valid","invalid"]),
 PR("vars5", 5, "DEF MUT SET IF WHILE FUNC USE", "INT VAR", ACCEPT=1, covers=["valid","invalid"], time=2500, tiers=("thorough",)),
]},
"P11": {"jobs": [
 PR("funcs4", 4, "FUNC FUNCI CALL RET DEF", "INT CALL VAR", "CALL CALL1", ACCEPT=1, covers=["valid","invalid"]),
 PR("params3", 3, "FUNCP EXTERNAL CALL RET USE", "INT VAR CALL1", "CALL CALL1", ACCEPT=1, covers=["valid","invalid"]),
 PR("nest3", 3, "FUNC EXPFUNC EXTERNAL IF NS EXPDEF", "INT", ACCEPT=1, covers=["valid","invalid"]),
 dict(name="calls1", src="calls.c", defs=dict(MAXP=1), time=200, covers=["valid","invalid"], bounds="one parameter of 8 types, up to 2 arguments"),
 dict(name="calls2", src="calls.c", defs=dict(MAXP=2), time=1500, covers=["valid","invalid"], tiers=("thorough",), bounds="two parameters of 8 types, up to 3 arguments"),
 PR("badtype", 2, "BADTYPE USE RET", "INT VAR", ACCEPT=1, covers=["valid","invalid"]),
]},
"P17": {"jobs": [
 PR("ns4", 4, "NS DEF USE FUNC CALL", "INT VAR QUAL", "CALL QCALL", ACCEPT=1, covers=["valid","invalid"]),
 PR("ns4run", 4, "NS MUT USE FUNC CALL", "EXT VAR QUAL", "CALL QCALL", RUN=1, covers=["ran"]),
]},
"P16": {"jobs": [
 PR("vars4r", 4, "DEF MUT SET IF WHILE USE", "EXT VAR ADD", RUN=1, covers=["ran"]),
 PR("funcs4r", 4, "FUNC FUNCI MUT SET CALL RET USE", "EXT CALL VAR", RUN=1, covers=["ran"]),
 PR("params4r", 4, "FUNCP FUNC2 RET USE", "EXT CALL1 CALL2 VAR", RUN=1, covers=["ran"]),
 PR("refs5r", 5, "MUT DEF SET USE", "EXT REF DEREF", RUN=1, covers=["ran"]),
]},
"P03": {"jobs": [
 dict(name="pre1", src="pos.c", defs=dict(NP=1), time=150, covers=["pos"], bounds="one piece of layout before each of 56 mistakes, four kinds of white space"),
 dict(name="pre2", src="pos.c", defs=dict(NP=2), time=150, covers=["pos"]),
 dict(name="args1", src="pos.c", defs=dict(NP=1,ARGS=1), time=150, covers=["pos"]),
 dict(name="args3", src="pos.c", defs=dict(NP=3,ARGS=1), time=1500, covers=["pos"], tiers=("thorough",)),
 dict(name="pre3", src="pos.c", defs=dict(NP=3), time=2500, covers=["pos"], tiers=("thorough",)),
 dict(name="warn1", src="pos.c", defs=dict(NP=1,WARNS=1), time=150, covers=["pos"]),
]},
"P22": {"jobs": [
 PR("vars3", 3, "DEF MUT SET USE ANNOT EXPDEF", "INT EXT VAR", WARN=1, covers=["warned","none","werror","clean"]),
 PR("blocks4", 4, "MUT SET IFLIT WHILELIT USE", "INT VAR", WARN=1, covers=["warned","none","werror","clean"]),
 PR("funcs4", 4, "FUNC EXPFUNC EXTERNAL CALL MUT SET USE", "INT VAR CALL", WARN=1, covers=["warned","none","werror","clean"]),
 PR("vars4", 4, "DEF MUT SET IF USE", "INT EXT VAR", WARN=1, covers=["warned","none","werror","clean"]),
 PR("mixed5", 5, "DEF MUT SET IF FUNC CALL USE", "INT VAR", WARN=1, covers=["warned","none","werror","clean"], time=2500, tiers=("thorough",)),
 PR("ns3", 3, "FUNCI NS CALL RET DEF USE", "INT VAR CALL QUAL", "CALL QCALL", WARN=1, covers=["warned","none","werror","clean"]),
]},
"P29": {"jobs": [
 PR("vars3", 3, "DEF MUT SET IF WHILE USE EXPDEF", "EXT VAR BOOL", RUN=1, covers=["ran","described"], FLAGS='{"-g"}', DEBUGINFO=1),
 PR("funcs4", 4, "FUNC FUNCI MUT SET CALL RET USE", "EXT CALL VAR", RUN=1, covers=["ran","described"], FLAGS='{"-g"}', DEBUGINFO=1),
 PR("params4", 4, "FUNCP FUNC2 RET USE", "EXT CALL1 CALL2 VAR", RUN=1, covers=["ran","described"], FLAGS='{"-g"}', DEBUGINFO=1),
 PR("refs4", 4, "MUT DEF SET USE FUNC", "EXT REF DEREF", RUN=1, covers=["ran","described"], FLAGS='{"-g"}', DEBUGINFO=1),
 PR("ns4", 4, "NS MUT USE FUNC CALL", "EXT VAR QUAL", "CALL QCALL", RUN=1, covers=["ran","described"], FLAGS='{"-g"}', DEBUGINFO=1),
]},
"P27": {"jobs": [
 PR("annot5", 5, "ALIAS MUT TANNOT", "INT BOOL REF VAR", ACCEPT=1, NAMES='"a","b","c"', TS="T_INT,T_REFINT,T_NAME,T_REFNAME", covers=["valid","invalid"]),
 PR("scope4", 4, "ALIAS IF FUNC NS TANNOT", "INT", ACCEPT=1, TS="T_INT,T_NAME,T_QUAL", covers=["valid","invalid"]),
 PR("value3", 3, "ALIAS MUTALIAS DEF MUT SET USE CALL", "INT VAR ADD REF DEREF CALL", ACCEPT=1, TS="T_BOOL,T_NAME", covers=["valid","invalid"]),
 PR("funcs3", 3, "ALIAS TFUNC TANNOT", "INT CALL1", ACCEPT=1, TS="T_INT,T_BOOL,T_NAME,T_VOID", covers=["valid","invalid"]),
 PR("run4", 4, "ALIAS TFUNC TANNOT USE", "EXT CALL1 VAR DEREF REF", RUN=1, NAMES='"a","b","c"', TS="T_INT,T_NAME,T_REFNAME", covers=["ran"]),
]},
"P19": {"jobs": [
 PR("vars4", 4, "DEF MUT SET IF WHILE USE EXPDEF", "EXT VAR ADD", RUN=1, CBACK=1, covers=["ran"]),
 PR("funcs4", 4, "FUNC FUNCI EXPFUNC MUT SET CALL RET USE", "EXT CALL VAR", RUN=1, CBACK=1, covers=["ran"]),
 PR("params4", 4, "FUNCP FUNC2 RET USE", "EXT CALL1 CALL2 VAR", RUN=1, CBACK=1, covers=["ran"]),
 PR("refs5", 5, "MUT DEF SET USE", "EXT REF DEREF", RUN=1, CBACK=1, covers=["ran"]),
 PR("alias4", 4, "ALIAS TFUNC TANNOT USE", "EXT CALL1 VAR DEREF REF", RUN=1, CBACK=1, NAMES='"a","b","c"', TS="T_INT,T_NAME,T_REFNAME", covers=["ran"]),
 *[dict(name="lit"+n, src="clit.c", defs=dict(CBACK=1,TY="R_"+n,NB=2), time=200, covers=["ran"], sx=[]) for n in ("INT","FLOAT","BOOL","RUNE","STR")],
 dict(name="flow5", src="flow.c", defs=dict(CBACK=1,NS=5,RUN=1,KINDS=KS(0,1,2,3,4,5,6,7,8,9)), time=300, covers=["ran"]),
 dict(name="flow4f", src="flow.c", defs=dict(CBACK=1,NS=4,RUN=1,WRAP=1,KINDS=KS(0,1,2,3,4,5,6,7,8,9,10)), time=300, covers=["ran"]),
 PR("vars5", 5, "DEF MUT SET IF WHILE FUNC USE", "EXT VAR ADD", RUN=1, CBACK=1, covers=["ran"], time=2500, tiers=("thorough",)),
 dict(name="flat3p", src="prec.c", defs=dict(CBACK=1,SMALL=1,NOPS=3,PARENS=1,INTS=1), time=900, covers=["ran"], tiers=("thorough",)),
 dict(name="int1", src="ops.c", defs=dict(CBACK=1,TREE=1,WANT="R_INT"), time=200, covers=["ran"]),
 dict(name="flt1", src="ops.c", defs=dict(CBACK=1,TREE=1,WANT="R_FLOAT"), time=200, covers=["ran"]),
 dict(name="bool1", src="ops.c", defs=dict(CBACK=1,TREE=1,WANT="R_BOOL"), time=200, covers=["ran"]),
 dict(name="flat2u", src="prec.c", defs=dict(CBACK=1,SMALL=1,NOPS=2,UNARY=1), time=200, covers=["ran","illtyped"]),
 dict(name="flat3", src="prec.c", defs=dict(CBACK=1,SMALL=1,NOPS=3,INTS=1,BINOPS="O_ADD,O_SUB,O_MUL,O_DIV,O_MOD,O_POW,O_SHL,O_SHR,O_LT,O_GE,O_IS"), time=200, covers=["ran"]),
]},
"P04": {"jobs": [
 PR("vars3", 3, "DEF MUT SET USE IF", "EXT VAR ADD", RUN=1, LAYOUT=1, covers=["ran"]),
 PR("accept2", 2, "DEF MUT SET ANNOT USE FUNC CALL IF WHILE", "INT BOOL VAR CALL", ACCEPT=1, LAYOUT=1, covers=["valid","invalid"]),
 PR("funcs3", 3, "FUNCP FUNCI EXPFUNC NS RET USE", "EXT CALL1 VAR QUAL", RUN=1, LAYOUT=1, covers=["ran"]),
 dict(name="whole1", src="layout.c", defs=dict(LAYOUT=1), time=200, covers=["ran"]),
 *[dict(name="whole2%d" % i, src="layout.c", defs=dict(LAYOUT=2,PROG=i), time=1500, covers=["ran"], tiers=("thorough",)) for i in range(4)],
 dict(name="flow3", src="flow.c", defs=dict(LAYOUT=1,NS=3,RUN=1,KINDS=KS(0,1,2,3,4,5,6,7)), time=300, covers=["ran"]),
 dict(name="flat2", src="prec.c", defs=dict(LAYOUT=1,SMALL=1,NOPS=2,INTS=1,BINOPS="O_SUB,O_POW,O_LT,O_MOD,O_SHL"), time=200, covers=["ran"]),
 dict(name="names2", src="ident.c", defs=dict(KB=2), time=200, covers=["valid","invalid"]),
 dict(name="names3", src="ident.c", defs=dict(KB=3), time=2500, covers=["valid","invalid"], tiers=("thorough",)),
 dict(name="words", src="ident.c", defs=dict(WORDS=1), time=200, covers=["valid","invalid"]),
]},
"P25": {"jobs": [
 dict(name="names2", src="imp.c", defs=dict(KB=2), time=200, covers=["imported","missing","noname","ran"], bounds="module names of one or two characters out of 15, six directories, every state of the module file and three decoys, four places"),
 dict(name="names3", src="imp.c", defs=dict(KB=3), time=2500, covers=["imported","missing","noname","ran"], tiers=("thorough",)),
]},
"P18": {"jobs": [
 dict(name="two", src="syms.c", defs=dict(ND=2,NAMES='"main","exit","a","pow","x"'), time=200, covers=["ran","exe"]),
]},
"P26": {"jobs": [
 PR("vars3", 3, "DEF MUT SET IF WHILE USE", "EXT VAR ADD", RUN=1, covers=["ran"], FLAGS=FA),
 PR("vars4g", 4, "DEF MUT SET IF WHILE USE", "EXT VAR ADD", RUN=1, covers=["ran"], FLAGS=FG),
 PR("funcs4g", 4, "FUNC FUNCI MUT SET CALL RET USE", "EXT CALL VAR", RUN=1, covers=["ran"], FLAGS=FG),
 PR("params4g", 4, "FUNCP FUNC2 RET USE", "EXT CALL1 CALL2 VAR", RUN=1, covers=["ran"], FLAGS=FG),
 PR("refs4g", 4, "MUT DEF SET USE", "EXT REF DEREF", RUN=1, covers=["ran"], FLAGS=FG),
 PR("ns4g", 4, "NS MUT USE FUNC CALL", "EXT VAR QUAL", "CALL QCALL", RUN=1, covers=["ran"], FLAGS=FG),
 PR("accept3", 3, "DEF MUT SET FUNCI RET IF USE", "INT BOOL VAR", ACCEPT=1, covers=["valid","invalid"], FLAGS=FA),
 PR("c3", 3, "DEF MUT SET IF WHILE USE FUNC", "EXT VAR ADD", RUN=1, CBACK=1, covers=["ran"], FLAGS='{"-g"},{"-g","-q"},{"--color"}'),
 dict(name="flow4g", src="flow.c", defs=dict(NS=4,RUN=1,KINDS=KS(0,1,2,3,4,5,6,7,8,9,10),FLAGS=FG), time=300, covers=["ran"]),
 dict(name="flow4gf", src="flow.c", defs=dict(NS=4,RUN=1,WRAP=1,KINDS=KS(0,1,2,3,4,5,6,7,8,9,10),FLAGS=FG), time=300, covers=["ran"]),
 dict(name="flow3", src="flow.c", defs=dict(NS=3,RUN=1,KINDS=KS(0,1,2,3,4,5,6,7,8,9),FLAGS=FA), time=300, covers=["ran"]),
 dict(name="int1g", src="ops.c", defs=dict(TREE=1,WANT="R_INT",FLAGS='{"-g"}'), time=200, covers=["ran"]),
 dict(name="bool1g", src="ops.c", defs=dict(TREE=1,WANT="R_BOOL",FLAGS='{"-g"}'), time=200, covers=["ran"]),
]},
"P05": {"jobs": [
 LIT("any", "INT", 4, "0123456789abcdefxoABFXOB_-.+"),
 LIT("dec", "INT", 5, "0123456789_-"),
 LIT("max", "INT", 2, "0123456789_", PRE="92233720368547758"),
 LIT("min", "INT", 2, "0123456789_", PRE="-92233720368547758"),
 LIT("maxover", "INT", 2, "0123456789_", MINB=0, PRE="9223372036854775807"),
 LIT("hex", "INT", 3, "0123456789abcdefABCDEF_gx", PRE="0x"),
 LIT("hexmax", "INT", 2, "01789abcdefF_", PRE="0x7fffffffffffff"),
 LIT("oct", "INT", 3, "0123456789_ox", PRE="0o"),
 LIT("octmax", "INT", 2, "01234567_", PRE="0o77777777777777777777"),
 LIT("bin", "INT", 4, "0123_bx", PRE="0b"),
 LIT("binmax", "INT", 2, "012_", PRE="0b"+"1"*62),
]},
"P06": {"jobs": [
 LIT("any", "FLT", 4, "0123456789_-.eINx"),
 LIT("frac", "FLT", 6, "0123456789", MINB=0, PRE="-1_2."),
 LIT("whole", "FLT", 5, "0123456789_", MINB=0, POST=".5"),
 LIT("names", "FLT", 2, "aNy.-ytx_", MINB=0, PRE="Infinit"),
 LIT("nan", "FLT", 2, "aNy.-_n", MINB=0, PRE="Na"),
]},
"P07": {"jobs": [
 LIT("rune", "RUNE", 3, "\\'\"0etrnxaAfg9 @\x01\n\x7f", MINB=0, WIDE=1),
 LIT("runehex", "RUNE", 5, "0aFg", MINB=0, PRE="\\x"),
 LIT("runehex8", "RUNE", 4, "01Fg", MINB=3, PRE="\\x00010"),
 LIT("str", "STR", 4, "\\'\"0etrnxaFg #@\x01\n", MINB=0, WIDE=1),
 LIT("strhex", "STR", 5, "0aFg\\", MINB=0, PRE="\\x"),
]},
"P08": {"jobs": [
 dict(name="flat2", src="prec.c", defs=dict(SMALL=1,NOPS=2), time=200, covers=["ran","illtyped"]),
 dict(name="flat2u", src="prec.c", defs=dict(SMALL=1,NOPS=2,UNARY=1), time=200, covers=["ran","illtyped"]),
 dict(name="flat3", src="prec.c", defs=dict(SMALL=1,NOPS=3,INTS=1,BINOPS="O_ADD,O_SUB,O_MUL,O_DIV,O_MOD,O_POW,O_SHL,O_SHR,O_LT,O_GE,O_IS"), time=200, covers=["ran"]),
 dict(name="flat3b", src="prec.c", defs=dict(SMALL=1,NOPS=3,BINOPS="O_ADD,O_MUL,O_LT,O_ISNT,O_AND,O_XOR"), time=200, covers=["ran"]),
 dict(name="flat3q", src="prec.c", defs=dict(SMALL=1,NOPS=3,PARENS=1,INTS=1,BINOPS="O_SUB,O_DIV,O_POW,O_SHL,O_GE"), time=200, covers=["ran"]),
 dict(name="flat3p", src="prec.c", defs=dict(SMALL=1,NOPS=3,PARENS=1,INTS=1), time=600, covers=["ran"], tiers=("thorough",)),
 dict(name="flat3u", src="prec.c", defs=dict(SMALL=1,NOPS=3,UNARY=1,INTS=1), time=900, covers=["ran"], tiers=("thorough",)),
]},
"P14": {"jobs": [
 dict(name="int1", src="ops.c", defs=dict(TREE=1,WANT="R_INT"), time=200, covers=["ran"]),
 dict(name="flt1", src="ops.c", defs=dict(TREE=1,WANT="R_FLOAT"), time=200, covers=["ran"]),
 dict(name="bool1", src="ops.c", defs=dict(TREE=1,WANT="R_BOOL"), time=200, covers=["ran"]),
]},
"P00": {"jobs": [dict(name="smoke", src="smoke.c", covers=["end"], time=60)]},
"P01": {"jobs": [
 dict(name="bytes2", src="bytes.c", defs=dict(KB=2, ALPHA=0), time=60),
 dict(name="bytes3", src="bytes.c", defs=dict(KB=3, ALPHA=1), time=60),
 dict(name="def3", src="bytes.c", defs=dict(KB=3, ALPHA=1, PRE=S("x:="), POST=S("\n")), time=60),
 dict(name="tok3", src="tokens.c", defs=dict(TK=3), time=60),
 dict(name="tok3c", src="tokens.c", defs=dict(TK=3,FLAG=S("--c-backend")), time=600, tiers=("thorough",)),
 dict(name="tok2c", src="tokens.c", defs=dict(TK=2,PRE=S(D+"h(q: Int) Int {\n"),POST=S("\nreturn q\n}\n"),FLAG=S("--c-backend")), time=60),
 dict(name="stmt3c", src="tokens.c", defs=dict(TK=3,VOCAB=3,PRE=S(D),FLAG=S("--c-backend")), time=60),
 dict(name="tok3p", src="tokens.c", defs=dict(TK=3,PRE=S(D)), time=600, tiers=("thorough",)),
 dict(name="tok3pf", src="tokens.c", defs=dict(TK=3,PRE=S(D+"h(q: Int) Int {\n"),POST=S("\nreturn q\n}\n")), time=60),
 dict(name="tok3pw", src="tokens.c", defs=dict(TK=3,PRE=S(D+"while b {\n"),POST=S("\n}\n")), time=600, tiers=("thorough",)),
 dict(name="stmt3", src="tokens.c", defs=dict(TK=3,VOCAB=1,PRE=S(D)), time=60),
 dict(name="stmt3f", src="tokens.c", defs=dict(TK=3,VOCAB=1,PRE=S(D+"h() {\n"),POST=S("\n}\n")), time=60),
 dict(name="expr3", src="tokens.c", defs=dict(TK=3,VOCAB=2,PRE=S(DE+"z := "),POST=S("\n")), time=60),
 dict(name="expr3c", src="tokens.c", defs=dict(TK=3,VOCAB=2,PRE=S(DE+"z := "),POST=S("\n"),FLAG=S("--c-backend")), time=60),
]},
"P23": {"jobs": [
 dict(name="map2", src="tables.c", defs=dict(MAP=1,NOPS=2,KL=2), time=100, covers=["new","again","end"]),
 dict(name="full", src="tables.c", defs=dict(MAP=1,NOPS=1,FILL=18), time=100, covers=["end"]),
 dict(name="map4", src="tables.c", defs=dict(MAP=1,NOPS=4,KL=4,POOL=1), time=100, covers=["new","again","end"]),
 dict(name="list", src="tables.c", defs=dict(ROUNDS=2,MAXPUSH=17,MAXPOP=4), time=100, covers=["end"]),
]},
"P24": {"jobs": [
 dict(name="strings", src="shim.c", defs=dict(STR=1,LEN=4), time=100, covers=["equal","differ"]),
 dict(name="powers", src="shim.c", defs=dict(MAXE=4), time=100, covers=["end"]),
]},
"P20": {"jobs": [
 dict(name="names", src="fname.c", defs=dict(KB=3), time=100, covers=["linked","parent"]),
 dict(name="args3", src="cli.c", defs=dict(NA=3,ENVS=4), time=150, covers=["refused","accepted","linked","werror","nostdout"]),
 dict(name="subsets", src="cli.c", defs=dict(NA=20,ENVS=1,SUBSET=1,VOCAB='"-c","-S","-q","-E","-o","-O1","a.sk","--c-backend","-O2","-g","--werror","--llvm-no-verify","--color"'), time=150, covers=["refused","accepted","linked","werror"]),
 dict(name="args4", src="cli.c", defs=dict(NA=4,ENVS=1,VOCAB='"a.sk","-c","-S","-E","-q","-O1","-O2","-o","out","--c-backend","--werror","--llvm-no-verify","--color","--","-"'), time=150, covers=["refused","accepted","linked","werror","nostdout"]),
]},
"P21": {"jobs": [
 dict(name="faults", src="faults.c", defs={}, time=100, covers=["failed","fine","removed","execfail"]),
]},
"P28": {"jobs": [
 dict(name="bytes6", src="utf8.c", defs=dict(KB=6), time=150, sx=[], covers=["ill","well","value"]),
]},
"P02": {"jobs": [
 dict(name="tok2", src="tokens.c", defs=dict(JOINT=1,TK=2,PRE=S(DW),FLAGSETS=FS), time=100, covers=["accepted","rejected"]),
 dict(name="tok2f", src="tokens.c", defs=dict(JOINT=1,TK=2,PRE=S(DW+"h(q: Int) Int {\n"),POST=S("\nreturn q\n}\nf(h(1))\n"),FLAGSETS=FS), time=100, covers=["accepted","rejected"]),
 dict(name="stmt3", src="tokens.c", defs=dict(JOINT=1,TK=3,VOCAB=3,PRE=S(DW),FLAGSETS=FS), time=100, covers=["accepted","rejected"]),
]},
"P13": {"jobs": [
 dict(name="stmt3", src="tokens.c", defs=dict(VERIFY=1,TK=3,VOCAB=3,PRE=S("mut x := 1\nb := x is 1\nf(a: Int) Int { return a }\ng() { noop }\ns := \"q\"\n"),FLAGSETS='{"-c"}'), time=200, covers=["accepted","verified"]),
 dict(name="expr3", src="tokens.c", defs=dict(VERIFY=1,TK=3,VOCAB=2,PRE=S(DE+"z := "),POST=S("\n"),FLAGSETS='{"-c","--llvm-no-verify"}'), time=100, covers=["accepted","verified"]),
 dict(name="expr3f", src="tokens.c", defs=dict(VERIFY=1,TK=3,VOCAB=2,PRE=S(DE+"h() Int {\nwhile b {\nreturn "),POST=S("\n}\nreturn 1\n}\n"),FLAGSETS='{"-c","--llvm-no-verify"}'), time=100, covers=["accepted","verified"]),
 dict(name="cond3", src="tokens.c", defs=dict(VERIFY=1,TK=3,VOCAB=2,PRE=S(DE+"if "),POST=S("{\nnoop\n}\n"),FLAGSETS='{"-c","--llvm-no-verify"}'), time=100, covers=["accepted","verified"]),
]},
"P12": {"jobs": [
 dict(name="flow4", src="flow.c", defs=dict(NS=4,ACCEPT=1,KINDS=KS(*range(13))), time=200, covers=["valid","invalid"]),
 dict(name="flow3f", src="flow.c", defs=dict(NS=4,ACCEPT=1,WRAP=1,KINDS=KS(*range(13))), time=200, covers=["valid","invalid"]),
 dict(name="flow3v", src="flow.c", defs=dict(NS=4,ACCEPT=1,WRAP=2,KINDS=KS(*range(13))), time=200, covers=["valid","invalid"]),
]},
"P15": {"jobs": [
 dict(name="run5", src="flow.c", defs=dict(NS=5,RUN=1,KINDS=KS(0,1,2,3,4,5,6,7,8,9)), time=300, covers=["ran"]),
 dict(name="run4c", src="flow.c", defs=dict(NS=4,RUN=1,CONDS=1,KINDS=KS(0,1,2,3,4,5,6,7,8,9)), time=300, covers=["ran"]),
 dict(name="run3n", src="flow.c", defs=dict(NS=4,RUN=1,COMMENTS=1,KINDS=KS(0,2,3,4,5,6)), time=300, covers=["ran"]),
 dict(name="run4f", src="flow.c", defs=dict(NS=4,RUN=1,WRAP=1,KINDS=KS(0,1,2,3,4,5,6,7,8,9)), time=300, covers=["ran"]),
]}}
