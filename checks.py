"""what each property's check builds and runs"""
def cpp(name, *sources, **k): return dict(kind="cpp", name=name, sources=list(sources) + ["tok.cpp"] * (not k.pop("notok", False)), **k)
CHECKS = {}
CHECKS["P01"] = dict(parts=[cpp("p01", "p01.cpp")])
CHECKS["P02"] = dict(parts=[cpp("p02", "p02.cpp")])
CHECKS["P03"] = dict(parts=[cpp("p03", "p03.cpp")])
CHECKS["P04"] = dict(parts=[cpp("p04", "p04.cpp")])
CHECKS["P05"] = dict(parts=[cpp("p05", "p05.cpp")])
CHECKS["P06"] = dict(parts=[cpp("p06", "p06.cpp")])
def sch(name, *sources, **k): return cpp(name, *sources, variant=k.pop("variant", "tsan"), engine_sources=["sched.cpp"], **k)
CHECKS["P25"] = dict(technique="E2", parts=[sch("p25", "p25.cpp")])
CHECKS["P26"] = dict(technique="E2", parts=[sch("p26", "p26.cpp", variant="plain")])
CHECKS["P07"] = dict(parts=[sch("p07", "p07.cpp", variant="plain")])
CHECKS["P09"] = dict(parts=[cpp("p09", "p09.cpp"), cpp("p09f", "p09.cpp", variant="fast")])
CHECKS["P10"] = dict(parts=[cpp("p10", "p10.cpp"), sch("p10r", "p10r.cpp")])
CHECKS["P11"] = dict(parts=[cpp("p11", "p11.cpp"), cpp("p11f", "p11.cpp", variant="fast")])
CHECKS["P12"] = dict(parts=[cpp("p12", "p12.cpp")])
CHECKS["P13"] = dict(parts=[cpp("p13", "p13.cpp", variant="fast")])
CHECKS["P15"] = dict(parts=[cpp("p15", "p15.cpp")])
CHECKS["P18"] = dict(parts=[cpp("p18", "p18.cpp")])
CHECKS["P16"] = dict(parts=[cpp("p16", "p16.cpp")])
CHECKS["P17"] = dict(parts=[cpp("p17", "p17.cpp")])
CHECKS["P19"] = dict(parts=[cpp("p19", "p19.cpp")])
CHECKS["P20"] = dict(parts=[cpp("p20", "p20.cpp")])
CHECKS["P27"] = dict(parts=[cpp("p27", "p27.cpp")])
CHECKS["P21"] = dict(parts=[cpp("p21", "p21.cpp", variant="fast")])
CHECKS["P22"] = dict(parts=[cpp("p22", "p22.cpp", variant="fast")])
CHECKS["P23"] = dict(parts=[sch("p23", "p23.cpp")])
CHECKS["P30"] = dict(parts=[dict(kind="perl", name="p30", cmd=["perl", "{V}/harness/perl/p30.pl"])])
CHECKS["P31"] = dict(parts=[dict(kind="perl", name="p31", cmd=["perl", "{V}/harness/perl/p31.pl"])])
CHECKS["P33"] = dict(parts=[dict(kind="perl", name="p33", cmd=["perl", "{V}/harness/perl/p33.pl"])])
CHECKS["P32"] = dict(parts=[dict(kind="perl", name="p32", cmd=["perl","{V}/harness/perl/p32.pl"])])
CHECKS["P24"] = dict(parts=[cpp("p24","p24.cpp",variant="fast")])
CHECKS["P34"] = dict(parts=[dict(kind="perl", name="p34", cmd=["perl","{V}/harness/perl/p34.pl"])])
CHECKS["P28"] = dict(parts=[cpp("p28","p28.cpp")])
CHECKS["P35"] = dict(parts=[dict(kind="perl", name="p35", cmd=["perl","{V}/harness/perl/p35.pl"])])
CHECKS["P36"] = dict(parts=[cpp("p36","p36.cpp",variant="fast",cflags=["-O0"])])
CHECKS["P37"] = dict(parts=[dict(kind="perl", name="p37", cmd=["perl","{V}/harness/perl/p37.pl"])])
NA = {}
CHECKS["P39"] = dict(parts=[cpp("p39","p39.cpp",cflags=["-U_FORTIFY_SOURCE"])])
CHECKS["P38"] = dict(parts=[cpp("p38","p38.cpp",variant="fast",lib_cflags=["-include","tscmacro.hpp"],cflags=["-include","tscmacro.hpp"])])
CHECKS["P40"] = dict(parts=[dict(kind="perl", name="p40", cmd=["perl","{V}/harness/perl/p40.pl"])])
CHECKS["P41"] = dict(parts=[cpp("p41","p41.cpp",variant="fast",program="src/drawRandomLogNormal.cpp")])
CHECKS["P42"] = dict(parts=[cpp("p42","p42.cpp",variant="plain",also=["src/unstable/*.cpp"])])
