"""What each check explores: specification modules, constants, bounds.

quick / thorough hold what differs per tier.  Constants are TLA+ expressions."""

PROBS = '<<"0","1/8","1/3","1/2","9/10","1","1/1000","999/1000","1/1000000">>'
WEIGHTS = '<<"0","1","2","5","1/3","1/1000","100","7/10","1/1000000">>'
DRAWS = '<<"0","1/1000003","1/97","1/7","2/9","31/100","4/9","1/2","55/97","5/8","71/100","6/7","19/21","96/97","999/1000","999999/1000003">>'

DISC_INV = ["TypeOK", "Normalised", "SetOneExact", "SampleInSupport"]

HIST_SETUPS = """<<
 [n |-> 2, kept |-> TRUE, kind |-> "int", prior |-> <<"1/4","3/4">>,
  sys |-> <<[nu |-> 0, t |-> <<<<<<"1/2","1/2">>,<<"0","1">>>>>>],
            [nu |-> 2, t |-> <<<<<<"1","0">>,<<"1/3","2/3">>>>, <<<<"1/5","4/5">>,<<"9/10","1/10">>>>>>]>>,
  meas |-> <<[ns |-> 0, nz |-> 2, t |-> <<<<<<"1/2","0">>,<<"1/4","3">>>>>>],
             [ns |-> 2, nz |-> 1, t |-> <<<<<<"2">>,<<"1/7">>>>, <<<<"0">>,<<"1">>>>>>]>>],
 [n |-> 3, kept |-> TRUE, kind |-> "cv", prior |-> <<"1/2","0","1/2">>,
  sys |-> <<[nu |-> 1, t |-> <<<<<<"1/2","1/2","0">>,<<"0","1","0">>,<<"1/3","1/3","1/3">>>>>>]>>,
  meas |-> <<[ns |-> 1, nz |-> 2, t |-> <<<<<<"1/2","0">>,<<"0","1">>,<<"1/4","3">>>>>>],
             [ns |-> 0, nz |-> 1, t |-> <<<<<<"2">>,<<"1/7">>,<<"0">>>>>>]>>]
 >>"""

# particle filters
PF_INV = ["Normalised", "Importance", "Survivors", "Policy"]
PF_SIM = dict(Setups='<<>>', Kinds='<<"gauss","gauss","table">>', FTypes='<<"boot","gen">>', Sizes='<<1,2,3,5,8>>', Dims='<<1,1,2,3>>', MDims='<<1,1,2>>',
              Thresholds='<<"3/2","2","5/2","100">>', Weights='<<"1","1","2","5","1/3","7/10","0">>',
              Vals='<<"0","1","-1","1/2","-3/2","2">>', Gains='<<"0","1","1/2","-1/3","1/5">>', Diags='<<"1","1/2","3/2","2">>', Offs='<<"0","1/2","-1/3">>',
              Normals='<<"0","1","-1","1/3","-1/2","7/5","-9/5","2/7">>', Rows1='<<"0","1","2","5","1/3","7/10">>', Liks='<<"0","1","2","5","1/3","7/10","1/50">>',
              NumSys='2', NumMeas='2', MaxU='2', MaxZ='3', MaxS='2', Draws=DRAWS, MaxLen='12')
PF_NONE = {k: '<<>>' for k in ("Kinds", "FTypes", "Sizes", "Dims", "MDims", "Periods", "Thresholds", "Weights", "Vals", "Gains", "Diags", "Offs", "Normals", "Rows1", "Liks")}
PF_NONE.update({k: '1' for k in ("NumSys", "NumMeas", "MaxU", "MaxZ", "MaxS")})
PF_T1 = '[nu |-> 0, t |-> <<<<<<"1/2","1/2">>,<<"1/4","3/4">>>>>>]'
PF_T2 = '[nu |-> 2, t |-> <<<<<<"1","0">>,<<"1/3","2/3">>>>, <<<<"1/5","4/5">>,<<"9/10","1/10">>>>>>]'
PF_Q2 = '[nu |-> 2, t |-> <<<<<<"1/2","1/2">>,<<"1/2","1/2">>>>, <<<<"1/5","4/5">>,<<"1/3","2/3">>>>>>]'
PF_M1 = '[nu |-> 0, nz |-> 2, t |-> <<<<<<"1/2","0">>,<<"1/4","3">>>>>>]'
PF_M2 = '[nu |-> 2, nz |-> 1, t |-> <<<<<<"2">>,<<"1/7">>>>, <<<<"0">>,<<"1">>>>>>]'
PF_SETUPS = "<<" + ",".join('[kind |-> "table", ft |-> "%s", n |-> 2, d |-> 2, period |-> %s, thr |-> "%s", userpost |-> %s, v |-> <<<<"0">>,<<"1">>>>, w |-> <<"1/4","3/4">>, sys |-> <<%s>>, prop |-> <<%s>>, meas |-> <<%s>>]'
   % t for t in [("boot", "1", "0", "TRUE", PF_T1 + "," + PF_T2, "", PF_M1 + "," + PF_M2),
                 ("boot", "0", "3/2", "FALSE", PF_T1, "", PF_M1 + "," + PF_M2),
                 ("gen", "0", "19/10", "FALSE", PF_T2, PF_Q2, PF_M1 + "," + PF_M2)]) + ">>"

MPF_INV = ["Normalised", "Importance", "Bayes", "Policy"]
MPF_SETUPS = "<<" + ",".join('[kind |-> "table", ft |-> "%s", n |-> 2, d |-> 2, period |-> %s, thr |-> "%s", cs |-> <<[v |-> <<<<"0">>,<<"1">>>>, w |-> <<"1/4","3/4">>],[v |-> <<<<"1">>>>, w |-> <<"1">>]>>, mw |-> <<"2/5","3/5">>, most |-> 3, mper |-> %s, plan |-> "%s", sys |-> <<%s>>, prop |-> <<%s>>, meas |-> <<%s>>]'
   % t for t in [("boot", "1", "0", "2", "split", PF_T1, "", PF_M1),
                 ("boot", "0", "3/2", "1", "drop", PF_T2, "", PF_M2),
                 ("gen", "0", "19/10", "1", "split", PF_T2, PF_Q2, PF_M1 + "," + PF_M2)]) + ">>"
PS_INV = ["Normalised", "MassKept", "NoRevival"]

# Kalman filters
KF_INV = ["JointExact", "CovSound"]
KF_SIM = dict(Setups='<<>>', FTypes='<<"ekf","iekf">>', Iters='<<1,2,3,4>>', Innovs='<<"none","0","1/100","1">>', Dims='<<1,2,3,4>>', MDims='<<1,1,2,3>>',
              Vals='<<"0","1","-1","1/2","-3/2","2","3","-5/2">>', Gains='<<"0","1","1/2","-1/3","1/5","-1","3/4">>', Quads='<<"0","0","1/10","-1/7","1/4">>',
              Diags='<<"1","1/2","3/2","2">>', Offs='<<"0","1/2","-1/3","1">>', NoiseG='<<"0","1/5","1/2">>', NumSys='2', NumMeas='3', MaxU='2', MaxS='2', Ghost='12', MaxLen='14')
KF_NONE = {k: '<<>>' for k in ("Lins", "FTypes", "Iters", "Innovs", "Dims", "MDims", "Gains", "Quads", "Diags", "Offs", "NoiseG")}
KF_NONE.update({k: '1' for k in ("NumSys", "NumMeas", "MaxU", "MaxS")})
_M = '[nu |-> %d, lin |-> TRUE, a |-> %s, c |-> %s, b |-> %s, mu |-> %s, q |-> %s, g |-> "0"]'
KF_S1 = _M % (0, '<<<<"1/2">>>>', '<<<<"0">>>>', '<<>>', '<<"1">>', '<<<<"2">>>>')
KF_S2 = _M % (1, '<<<<"-2">>>>', '<<<<"0">>>>', '<<<<"3">>>>', '<<"0">>', '<<<<"1/3">>>>')
KF_M1 = _M % (0, '<<<<"3">>>>', '<<<<"0">>>>', '<<>>', '<<"1/2">>', '<<<<"1/2">>>>')
KF_M2 = _M % (1, '<<<<"1">>,<<"-1">>>>', '<<<<"0">>,<<"0">>>>', '<<<<"1">>,<<"2">>>>', '<<"0","1">>', '<<<<"2","1">>,<<"1","1">>>>')
KF_S3 = _M % (0, '<<<<"1","1/2">>,<<"0","-1">>>>', '<<<<"0","0">>,<<"0","0">>>>', '<<>>', '<<"0","1">>', '<<<<"1","1/2">>,<<"1/2","1">>>>')
KF_M3 = _M % (0, '<<<<"1","2">>>>', '<<<<"0","0">>>>', '<<>>', '<<"0">>', '<<<<"1">>>>')
KF_SETUPS = "<<" + ",".join('[n |-> %d, ft |-> "%s", it |-> %d, inn |-> "none", alloc |-> <<>>, mu |-> %s, p |-> %s, sys |-> <<%s>>, meas |-> <<%s>>]' % t for t in [
    (1, "ekf", 1, '<<"1">>', '<<<<"2">>>>', KF_S1 + "," + KF_S2, KF_M1 + "," + KF_M2),
    (1, "iekf", 3, '<<"1">>', '<<<<"0">>>>', KF_S1 + "," + KF_S2, KF_M1 + "," + KF_M2),
    (2, "ekf", 1, '<<"1","-1">>', '<<<<"2","1">>,<<"1","1/2">>>>', KF_S3, KF_M3)]) + ">>"
SR_SETUPS = "<<" + ",".join('[n |-> %d, ft |-> "sr", it |-> %d, inn |-> "none", alloc |-> <<>>, mu |-> %s, p |-> %s, sys |-> <<%s>>, meas |-> <<%s>>]' % t for t in [
    (1, 2, '<<"1">>', '<<<<"2">>>>', KF_S1 + "," + KF_S2, KF_M1 + "," + KF_M2),
    (2, 1, '<<"1","-1">>', '<<<<"2","1">>,<<"1","1">>>>', KF_S3, KF_M3)]) + ">>"

# Particle filter with Kalman proposals
EK_INV = ["Normalised", "CovSound", "Importance", "Optimal"]
EK_SIM = {k: v for k, v in KF_SIM.items() if k not in ("FTypes", "Iters", "Innovs", "Ghost", "NumMeas", "Dims", "MDims")}
EK_SIM.update(Lins='<<"lin","non","mix">>', Dims='<<1,1,2,3>>', MDims='<<1,1,2>>', NumMeas='2', Sizes='<<1,2,3,4>>', Periods='<<0,0,1,2,3>>',
              Thresholds='<<"3/2","2","5/2","100">>', Weights=PF_SIM["Weights"], Normals=PF_SIM["Normals"], Draws=DRAWS, MaxLen='10')
EK_NONE = {k: '<<>>' for k in ("Lins", "Dims", "MDims", "Gains", "Quads", "Diags", "Offs", "NoiseG", "Sizes", "Periods", "Thresholds", "Weights")}
EK_NONE.update({k: '1' for k in ("NumSys", "NumMeas", "MaxU", "MaxS")})
EK_SETUPS = "<<" + ",".join('[n |-> %d, d |-> 1, period |-> %d, thr |-> "%s", late |-> TRUE, v |-> %s, w |-> %s, sys |-> <<%s>>, meas |-> <<%s>>]' % t for t in [
    (2, 1, "0", '<<<<"0">>,<<"1">>>>', '<<"1/4","3/4">>', KF_S1, KF_M1), (2, 0, "9/5", '<<<<"0">>,<<"2">>>>', '<<"1/2","1/2">>', KF_S1, KF_M1),
    (1, 0, "2", '<<<<"1">>>>', '<<"1">>', KF_S1 + "," + KF_S2, KF_M1 + "," + KF_M2)]) + ">>"

# Random number generators
_G = lambda k, p, q: '<<[kind |-> "%s", p |-> "%s", q |-> "%s"]>>' % (k, p, q)
RNG = dict(Fracs='<<"1/20","1/4","1/2","3/4","19/20">>', Sds='<<"-2","-1","-1/4","1/2","1","5/2">>')
RNG_MENU = ' \\o '.join([_G("std", 0, 1)] * 3 + [_G("norm", *t) for t in ((0, 1), (0, 1), (0, "1/1000"), (-5, 3), ("7/2", 100), (1000000, 1), (-2, "1/3"))]
                        + [_G("unif", *t) for t in ((0, 1), (-1, 1), (-100, 1000), (0, "1/1000"), (1000, 1001), (-3, -2), ("1/2", "5/2"))])

# Gaussian and uniform densities
CT_SIM = dict(Dims='<<1,1,2,3,4,6>>', Vals='<<"0","1","-1","1/2","-3/2","2","13/4","-5">>', Diags='<<"1","1/2","3/2","2","1/4","5","1","0">>', Offs='<<"0","1/2","-1/3","1","-7/4">>',
              Widths='<<"1","1/2","4","8","1/16","64","1024">>', Normals='<<"0","1","-1","1/3","-1/2","7/5","-9/5","2/7","4">>', Draws=DRAWS, Lists='<<0,1,2,3,5,9>>',
              MaxObjs='3', Ops='{"new","copy","set","dim","prob","sample"}', MaxLen='24')

# mixtures
MX_INV = ["Normalised", "SetExact"]
MX_SIM = dict(Types='<<"cv","cv","int","real">>', Dims='<<1,2,3,4>>', Counts='<<0,1,1,2,3,5>>', Vals='<<"0","1","-1","1/2","-3/2","2","13/4","-5">>', Diags='<<"1","1/2","3/2","2","5">>',
              Offs='<<"0","1/2","-1/3","1">>', Widths='<<"1","1/2","4","8","16">>', Weights=WEIGHTS, Probs=PROBS, Normals='<<"0","1","-1","1/3","-1/2","7/5","-9/5","2/7","4">>', Draws=DRAWS,
              MaxComp='7', MaxObjs='3', MaxLen='24')
MX_BFS = dict(Dims='<<1>>', Vals='<<"-1","3/2">>', Diags='<<"1/2">>', Offs='<<"0">>', Widths='<<"4">>', Normals='<<"1">>', MaxObjs='2')

MA_INV = ["WellFormed", "InverseOK", "PenroseOK", "DetOK"]
MA_VALS = '<<"0","0","1","-1","2","-3","1/2","-5/4","7","11/8","-20">>'
MA_FIRST = ('<<<<[t |-> "M", v |-> <<<<"1","-3","1/2">>,<<"2","5/4","0">>>>], [t |-> "M", v |-> <<<<"2","1">>,<<"-4","-2">>>>], [t |-> "S", v |-> <<<<"2","-1">>,<<"-1","5">>>>],'
  '[t |-> "C", v |-> <<"3","-1/4">>], [t |-> "R", v |-> <<"-2","7">>]>>,'
  '<<[t |-> "M", v |-> <<<<"1","2","-1">>,<<"0","3","1">>,<<"2","-2","1/2">>>>], [t |-> "S", v |-> <<<<"3","1","-1">>,<<"1","2","0">>,<<"-1","0","-4">>>>], [t |-> "M", v |-> <<<<"1","2","3">>,<<"4","5","6">>,<<"5","7","9">>>>],'
  '[t |-> "C", v |-> <<"1","0","-1/2">>], [t |-> "R", v |-> <<"4","1","-1">>], [t |-> "S", v |-> <<<<"5">>>>]>>>>')
MA_FIRST1 = ('<<<<[t |-> "M", v |-> <<<<"2","1">>,<<"-4","1/2">>>>], [t |-> "S", v |-> <<<<"2","-1">>,<<"-1","5">>>>], [t |-> "C", v |-> <<"3","-1/4">>]>>,'
  '<<[t |-> "R", v |-> <<"2","1">>], [t |-> "C", v |-> <<"-1","5">>], [t |-> "M", v |-> <<<<"3","-1/4","1">>>>]>>>>')
CG_INV = ["DensityOK", "MeanLinear", "RefsOK"]
CG_SIM = dict(Types='<<"lin","lin","user","plain">>', Dims='<<1,2,3,4>>', ArgCounts='<<1,1,2,2,3>>', Vals='<<"0","1","-1","1/2","-3/2","2","13/4","-5">>', Gains='<<"0","1","1/2","-1/3","1/5","-1","3/4","4">>',
              Quads='<<"0","0","1/10","-1/7","1/4">>', NoiseG='<<"0","1/5","1/2">>', Diags='<<"1","1/2","3/2","2","1/4","5","1","0">>', Offs='<<"0","1/2","-1/3","1","-7/4">>',
              Normals='<<"0","1","-1","1/3","-1/2","7/5","-9/5","2/7","4">>', Lists='<<0,1,2,5>>', MaxPdfs='3', MaxMods='3', MaxLen='24')
CG_BFS = dict(Types='<<"lin">>', Dims='<<1>>', ArgCounts='<<1,2>>', Vals='<<"-1","3/2">>', Gains='<<"2">>', Quads='<<"1/4">>', NoiseG='<<"1/2">>', Diags='<<"1/2">>', Offs='<<"0">>', Normals='<<"1">>',
              Lists='<<0,2>>', MaxPdfs='2', MaxMods='2')
DC_INV = ["Coded", "Decoded", "Support"]
# y = u x^2 + x with noise added, the same with noise on the input, and two outputs of one state with noise on the first of two inputs
GI_SETUPS = ('<<[nx |-> 1, nu |-> 1, cond |-> <<>>, f |-> <<<<[c |-> "1", e |-> <<2, 1>>], [c |-> "1", e |-> <<1, 0>>]>>>>, mu |-> <<"1/2">>, l |-> <<<<"1">>>>, x |-> <<>>, u |-> <<>>],'
             '[nx |-> 1, nu |-> 1, cond |-> <<1>>, f |-> <<<<[c |-> "1", e |-> <<2, 2>>], [c |-> "1", e |-> <<1, 0>>]>>>>, mu |-> <<"-1">>, l |-> <<<<"1/2">>>>, x |-> <<>>, u |-> <<>>],'
             '[nx |-> 1, nu |-> 2, cond |-> <<2, 1>>, f |-> <<<<[c |-> "2", e |-> <<1, 2, 0>>]>>, <<[c |-> "1", e |-> <<0, 1, 1>>]>>>>, mu |-> <<"1", "1/4">>, l |-> <<<<"1", "0">>, <<"1/2", "1">>>>, x |-> <<>>, u |-> <<>>]>>')
GI_INV = ["Tangent", "FactorOK", "CovSymmetric"]
PROPS = {
  "C01": dict(fam="hist", tol=(1e-8, 1e-12), runs=[
    dict(name="hist_bfs", module="Histogram", mode="bfs", inv=["Normalised", "BayesExact"],
         consts=dict(Setups=HIST_SETUPS, Sizes='<<1>>', Rows='<<"1">>', Liks='<<"1">>', NumSys='1', NumMeas='1', MaxU='1', MaxZ='1', MaxS='1'),
         quick=dict(consts=dict(MaxLen='3', Ghost='4')), thorough=dict(consts=dict(MaxLen='4', Ghost='6'), mem=6000)),
    dict(name="hist_sim", module="Histogram", mode="sim", inv=["Normalised", "BayesExact"],
         consts=dict(Setups='<<>>', Sizes='<<1,2,3,4,5,6,8,12>>', Rows='<<"0","1","2","5","1/3","1/100","30","7/10">>',
                     Liks='<<"0","1","2","5","1/3","1/1000","100","7/10","1/100000">>', NumSys='3', NumMeas='3', MaxU='3', MaxZ='4', MaxS='3',
                     Ghost='3', MaxLen='24'),
         quick=dict(num=150, shards=6), thorough=dict(num=1500, shards=8)),
  ]),
  "C02": dict(fam="disc", tol=(1e-9, 1e-13), runs=[
    dict(name="disc_bfs", module="Discrete", mode="bfs", inv=DISC_INV, props=["Frame"],
         consts=dict(Sizes='<<1,2,3>>', Probs='<<"0","1/4","1">>', Weights='<<"0","1","2">>', Draws='<<"0">>', Lists='<<0>>',
                     MaxObjs='2', Ops='{"copy","set"}'),
         quick=dict(consts=dict(MaxLen='3')), thorough=dict(consts=dict(MaxLen='4'))),
    dict(name="disc_sim", module="Discrete", mode="sim", inv=DISC_INV,
         consts=dict(Sizes='<<1,2,3,4,5,7,10,16>>', Probs=PROBS, Weights=WEIGHTS, Draws=DRAWS, Lists='<<0,1,3>>',
                     MaxObjs='3', Ops='{"new","copy","set","sample"}', MaxLen='30'),
         quick=dict(num=150, shards=2), thorough=dict(num=1500, shards=6)),
  ]),
  "C03": dict(fam="disc", tol=(1e-9, 1e-13), runs=[
    dict(name="disc_bfs", module="Discrete", mode="bfs", inv=DISC_INV, props=["Frame"],
         consts=dict(Sizes='<<1,2,3>>', Probs='<<"0","1/4","1">>', Weights='<<"0","1","2">>',
                     Draws='<<"0","1/10","6/10","95/100">>', Lists='<<0,1,2>>', MaxObjs='1', Ops='{"set","sample"}'),
         quick=dict(consts=dict(MaxLen='3')), thorough=dict(consts=dict(MaxLen='4'))),
    dict(name="disc_sim", module="Discrete", mode="sim", inv=DISC_INV,
         consts=dict(Sizes='<<1,2,3,4,5,7,10,16>>', Probs=PROBS, Weights=WEIGHTS, Draws=DRAWS, Lists='<<0,1,2,3,5,10>>',
                     MaxObjs='2', Ops='{"set","copy","sample"}', MaxLen='30'),
         quick=dict(num=150, shards=2), thorough=dict(num=1500, shards=6)),
  ]),
  "C04": dict(fam="mc", tol=(1e-9, 1e-9), runs=[
    dict(name="mc_bfs", module="McPdf", mode="bfs", inv=["Normalised", "Proportional", "CovOK"], props=["Frame"],
         consts=dict(Types='<<"cv","uint">>', Dims='<<1>>', Sizes='<<1,2>>', Vals='<<"-1","3/2">>', UVals='<<"0","3">>', Weights='<<"0","1","3">>',
                     Draws='<<"0">>', Lists='<<0>>', MaxObjs='2', Ops='{"copy","set","resize"}'),
         quick=dict(consts=dict(MaxLen='3')), thorough=dict(consts=dict(MaxLen='4', Vals='<<"2">>', UVals='<<"3">>'), mem=6000)),
    dict(name="mc_sim", module="McPdf", mode="sim", inv=["Normalised", "Proportional", "CovOK"],
         consts=dict(Types='<<"cv","cv","cv","uint">>', Dims='<<1,2,3,4,6>>', Sizes='<<1,2,3,5,8,12>>', Vals='<<"0","1","-1","5/2","-7/3","10","1/100">>',
                     UVals='<<"0","1","2","5","17","100">>', Weights=WEIGHTS, Draws=DRAWS, Lists='<<0,1,3>>', MaxObjs='3',
                     Ops='{"new","copy","set","resize","sample"}', MaxLen='20'),
         quick=dict(num=50, shards=6), thorough=dict(num=600, shards=8)),
  ]),
  "C05": dict(fam="mc", tol=(1e-9, 1e-9), runs=[
    dict(name="mcs_bfs", module="McPdf", mode="bfs", inv=["Normalised", "SamplesHeld"], props=["Frame"],
         consts=dict(Types='<<"cv">>', Dims='<<1>>', Sizes='<<3>>', Vals='<<"-1","3/2","4">>', UVals='<<"0">>', Weights='<<"0","1">>',
                     Draws='<<"0","1/10","6/10","95/100">>', Lists='<<0,1,2>>', MaxObjs='1', Ops='{"set","sample"}'),
         quick=dict(consts=dict(MaxLen='3', Vals='<<"-1","3/2">>')), thorough=dict(consts=dict(MaxLen='3'), mem=6000)),
    dict(name="mcs_sim", module="McPdf", mode="sim", inv=["Normalised", "SamplesHeld"],
         consts=dict(Types='<<"cv","uint">>', Dims='<<1,2,3>>', Sizes='<<1,2,3,5,8,12>>', Vals='<<"0","1","-1","5/2","-7/3","10","1/100","3","4","5","6","7","8","9">>',
                     UVals='<<"0","1","2","5","17","100">>', Weights=WEIGHTS, Draws=DRAWS, Lists='<<0,1,2,3,5,8,12>>', MaxObjs='2',
                     Ops='{"copy","set","sample"}', MaxLen='20'),
         quick=dict(num=100, shards=3), thorough=dict(num=900, shards=8)),
  ]),
  "C06": dict(fam="pf", tol=(1e-7, 1e-10), runs=[
    dict(name="pf_bfs", module="Particle", mode="bfs", inv=PF_INV, consts=dict(PF_NONE, Setups=PF_SETUPS, Draws='<<"1/10","6/10">>'),
         quick=dict(consts=dict(MaxLen='3')), thorough=dict(consts=dict(MaxLen='3', Draws='<<"1/10","6/10","19/20">>'), mem=6000)),
    dict(name="pf_sim", module="Particle", mode="sim", inv=PF_INV, consts=dict(PF_SIM, Periods='<<0,0,1,2,3,50>>'),
         quick=dict(num=300, shards=6), thorough=dict(num=4000, shards=8)),
  ]),
  "C07": dict(fam="pf", tol=(1e-7, 1e-10), runs=[
    dict(name="pfr_bfs", module="Particle", mode="bfs", inv=PF_INV, consts=dict(PF_NONE, Setups=PF_SETUPS, Draws='<<"0","1/10","6/10">>'),
         quick=dict(consts=dict(MaxLen='3', Draws='<<"1/10","6/10">>')), thorough=dict(consts=dict(MaxLen='3'), mem=6000)),
    dict(name="pfr_sim", module="Particle", mode="sim", inv=PF_INV, consts=dict(PF_SIM, Periods='<<0,0,1,1,2,3>>', FTypes='<<"boot">>'),
         quick=dict(num=300, shards=6), thorough=dict(num=4000, shards=8)),
  ]),
  "C08": dict(fam="kf", tol=(1e-6, 1e-8), runs=[
    dict(name="kf_bfs", module="Kalman", mode="bfs", inv=KF_INV, consts=dict(KF_NONE, Setups=KF_SETUPS, Vals='<<"-1","2">>', Ghost='40', Ops='{"nis"}'),
         quick=dict(consts=dict(MaxLen='3')), thorough=dict(consts=dict(MaxLen='4'), mem=6000)),
    dict(name="kf_sim", module="Kalman", mode="sim", inv=KF_INV, consts=dict(KF_SIM, Lins='<<"lin">>', Ops='{"retune","write","reset","nis"}'),
         quick=dict(num=150, shards=7), thorough=dict(num=1500, shards=8)),
  ]),
  "C09": dict(fam="kf", tol=(1e-6, 1e-8), runs=[
    dict(name="ekf_sim", module="Kalman", mode="sim", inv=KF_INV, consts=dict(KF_SIM, Lins='<<"non","non","mix">>', Ops='{"retune","write","nis","reset"}'),
         quick=dict(num=150, shards=7), thorough=dict(num=1500, shards=8)),
  ]),
  "C10": dict(fam="kf", tol=(1e-6, 1e-8), runs=[
    dict(name="rts_bfs", module="Kalman", mode="bfs", inv=KF_INV + ["SmoothExact"], consts=dict(KF_NONE, Setups=KF_SETUPS, Vals='<<"-1","2">>', Ghost='40', Ops='{"smooth"}'),
         quick=dict(consts=dict(MaxLen='3')), thorough=dict(consts=dict(MaxLen='4'), mem=6000)),
    dict(name="rts_sim", module="Kalman", mode="sim", inv=KF_INV + ["SmoothExact"], consts=dict(KF_SIM, Dims='<<1,2,3>>', Lins='<<"lin","non","mix">>', Ops='{"smooth","retune","write","reset"}'),
         quick=dict(num=90, shards=7), thorough=dict(num=1200, shards=8)),
    dict(name="rts_vary", module="Kalman", mode="sim", inv=KF_INV + ["SmoothExact"], consts=dict(KF_SIM, Lins='<<"lin","lin","non">>', NumSys='1', Dims='<<1,2,3>>', Ops='{"smooth","vary"}'),
         quick=dict(num=60, shards=3), thorough=dict(num=800, shards=8)),
  ]),
  "C11": dict(fam="cont", tol=(1e-8, 1e-9), runs=[
    dict(name="gauss_bfs", module="Cont", mode="bfs", inv=["DensityOK"], props=["Frame"],
         consts=dict(Types='<<"g">>', Dims='<<1>>', Vals='<<"-1","3/2">>', Diags='<<"1/2","2">>', Offs='<<"0">>', Widths='<<"1">>', Normals='<<"1","-1/2">>', Draws='<<"0">>',
                     Lists='<<2>>', MaxObjs='2', Ops='{"copy","set","prob","sample"}'),
         quick=dict(consts=dict(MaxLen='3')), thorough=dict(consts=dict(MaxLen='4'), mem=6000)),
    dict(name="gauss_sim", module="Cont", mode="sim", inv=["DensityOK"], consts=dict(CT_SIM, Types='<<"g">>'),
         quick=dict(num=150, shards=6), thorough=dict(num=2000, shards=8)),
  ]),
  "C12": dict(fam="cont", tol=(1e-9, 1e-12), runs=[
    dict(name="unif_bfs", module="Cont", mode="bfs", inv=["SampleInBox"], props=["Frame"],
         consts=dict(Types='<<"u">>', Dims='<<1,2>>', Vals='<<"-1">>', Diags='<<"1">>', Offs='<<"0">>', Widths='<<"1/2","4">>', Normals='<<"1">>', Draws='<<"0","3/8","96/97">>',
                     Lists='<<1>>', MaxObjs='2', Ops='{"copy","set","prob","sample"}'),
         quick=dict(consts=dict(MaxLen='3')), thorough=dict(consts=dict(MaxLen='4', Dims='<<1>>'), mem=6000)),
    dict(name="unif_sim", module="Cont", mode="sim", inv=["SampleInBox"], consts=dict(CT_SIM, Types='<<"u">>'),
         quick=dict(num=150, shards=4), thorough=dict(num=2000, shards=8)),
  ]),
  "C13": dict(fam="mix", tol=(1e-8, 1e-11), runs=[
    dict(name="mix_bfs", module="Mixture", mode="bfs", inv=MX_INV, props=["Frame"],
         consts=dict(MX_BFS, Types='<<"cv","real">>', Counts='<<0,1,2>>', Vals='<<"1">>', Weights='<<"0","1","2">>', Probs='<<"0","1/4","1">>', Draws='<<"0">>', Lists='<<1>>', MaxComp='3', Ops='{"copy","comp","weight"}'),
         quick=dict(consts=dict(MaxLen='3')), thorough=dict(consts=dict(MaxLen='4', Counts='<<0,2>>'), mem=6000)),
    dict(name="mix_sim", module="Mixture", mode="sim", inv=MX_INV, consts=dict(MX_SIM, Lists='<<0,1,3>>', Ops='{"new","copy","comp","weight","touch","prob","sample"}'),
         quick=dict(num=150, shards=6), thorough=dict(num=2000, shards=8)),
  ]),
  "C14": dict(fam="mix", tol=(1e-8, 1e-11), runs=[
    dict(name="mixs_bfs", module="Mixture", mode="bfs", inv=MX_INV, props=["Frame"],
         consts=dict(MX_BFS, Types='<<"cv","int">>', Dims='<<1,2>>', Vals='<<"1">>', Counts='<<2>>', Weights='<<"0","1">>', Probs='<<"0","1/4">>', Draws='<<"0","2/5","9/10">>', Lists='<<0,2>>', MaxComp='2', MaxObjs='1', Ops='{"weight","sample"}'),
         quick=dict(consts=dict(MaxLen='2')), thorough=dict(consts=dict(MaxLen='3', Lists='<<1>>'), mem=6000)),
    dict(name="mixs_sim", module="Mixture", mode="sim", inv=MX_INV, consts=dict(MX_SIM, Counts='<<1,2,3,5>>', Lists='<<0,1,2,3,5,10>>', Ops='{"copy","comp","weight","touch","sample"}'),
         quick=dict(num=150, shards=6), thorough=dict(num=2000, shards=8)),
  ]),
  "C15": dict(fam="mat", tol=(1e-9, 1e-9), runs=[
    dict(name="mat_bfs", module="Matrices", mode="bfs", inv=MA_INV,
         consts=dict(Unit='"1"', Types='<<"M">>', Dims='<<1,2,3>>', Vals='<<"-2","3/2">>', Scalars='<<"0","-2","1/2">>', First=MA_FIRST, MaxRegs='7', Ops='{"make","alg","part","ask","fact"}'),
         quick=dict(consts=dict(MaxLen='2')), thorough=dict(consts=dict(MaxLen='3', First=MA_FIRST1, MaxRegs='4'), mem=8000)),
    dict(name="mat_sim", module="Matrices", mode="sim", inv=MA_INV,
         consts=dict(Unit='"1"', Types='<<"M","M","S","C","R">>', Dims='<<1,2,3,4>>', Vals=MA_VALS, Scalars='<<"0","1","-2","1/2","3","-5/4","1/3">>', First='<<>>', MaxRegs='6', MaxLen='16', Ops='{"make","alg","part","ask","fact"}'),
         quick=dict(num=200, shards=6), thorough=dict(num=2500, shards=8)),
    dict(name="mat_fact", module="Matrices", mode="sim", inv=MA_INV,
         consts=dict(Unit='"1"', Types='<<"M","M","S">>', Dims='<<1,2,3,4,5>>', Vals=MA_VALS, Scalars='<<"0">>', First='<<>>', MaxRegs='5', MaxLen='12', Ops='{"fact"}'),
         quick=dict(num=150, shards=4), thorough=dict(num=2500, shards=8)),
  ]),
  "C16": dict(fam="condg", tol=(1e-8, 1e-10), runs=[
    dict(name="cg_bfs", module="CondGauss", mode="bfs", inv=CG_INV, props=["Frame", "CopySame"],
         consts=dict(CG_BFS, Ops='{"copy","set","prob","sample"}'),
         quick=dict(consts=dict(MaxLen='3', ArgCounts='<<1>>', Types='<<"lin","user","plain">>')), thorough=dict(consts=dict(MaxLen='4', Types='<<"lin">>'), mem=6000)),
    dict(name="cg_sim", module="CondGauss", mode="sim", inv=CG_INV, consts=dict(CG_SIM, Ops='{"new","copy","set","prob","sample"}'),
         quick=dict(num=150, shards=5), thorough=dict(num=2000, shards=8)),
  ]),
  "C17": dict(fam="condg", tol=(1e-8, 1e-10), runs=[
    dict(name="mod_bfs", module="CondGauss", mode="bfs", inv=CG_INV, props=["Frame", "CopySame"],
         consts=dict(CG_BFS, Vals='<<"3/2">>', Lists='<<0>>', Ops='{"copy","set","model"}'),
         quick=dict(consts=dict(MaxLen='3')), thorough=dict(consts=dict(MaxLen='4', ArgCounts='<<2>>'), mem=6000)),
    dict(name="mod_sim", module="CondGauss", mode="sim", inv=CG_INV, consts=dict(CG_SIM, Dims='<<1,2,2,3>>', ArgCounts='<<1,2>>', Ops='{"new","copy","set","model","sample"}'),
         quick=dict(num=200, shards=5), thorough=dict(num=2500, shards=8)),
  ]),
  "C18": dict(fam="dcond", tol=(1e-9, 1e-12), runs=[
    dict(name="dc_bfs", module="DiscCond", mode="bfs", inv=DC_INV, props=["OneEntry"],
         consts=dict(Sizes='<<1,2>>', ArgDims='<<1,2>>', ArgCounts='<<1,2>>', Entries='<<"0","3/2">>', Draws='<<"0","3/5">>', Lists='<<0,2>>', MaxPdfs='2', MaxMods='2', Ops='{"copy","row","sample","model"}'),
         quick=dict(consts=dict(MaxLen='4', Sizes='<<2>>')), thorough=dict(consts=dict(MaxLen='5', ArgDims='<<2>>', Sizes='<<2>>'), mem=6000)),
    dict(name="dc_sim", module="DiscCond", mode="sim", inv=DC_INV,
         consts=dict(Sizes='<<1,2,3,4,7>>', ArgDims='<<1,2,3,4,7>>', ArgCounts='<<1,1,2,2,3>>', Entries='<<"0","1","2","5","1/3","1/1000","7/10","1/2","1/4">>', Draws=DRAWS, Lists='<<0,1,2,5,10>>',
                     MaxPdfs='3', MaxMods='3', MaxLen='26', Ops='{"new","copy","one","row","fill","sample","model"}'),
         quick=dict(num=150, shards=4), thorough=dict(num=2000, shards=8)),
  ]),
  "C19": dict(fam="mpf", tol=(1e-7, 1e-10), runs=[
    dict(name="mpf_bfs", module="MixParticle", mode="bfs", inv=MPF_INV, consts=dict(PF_NONE, Setups=MPF_SETUPS, Draws='<<"6/10">>', MaxComps='2', MPeriods='<<>>', Plans='<<>>'),
         quick=dict(consts=dict(MaxLen='3')), thorough=dict(consts=dict(MaxLen='3'), mem=6000)),
    dict(name="mpf_bfsd", module="MixParticle", mode="bfs", inv=MPF_INV, consts=dict(PF_NONE, Setups=MPF_SETUPS, Draws='<<"1/10","6/10">>', MaxComps='2', MPeriods='<<>>', Plans='<<>>'),
         quick=dict(consts=dict(MaxLen='2')), thorough=dict(consts=dict(MaxLen='2', Draws='<<"0","1/10","6/10","19/20">>'), mem=6000)),
    dict(name="mpf_sim", module="MixParticle", mode="sim", inv=MPF_INV,
         consts=dict(PF_SIM, Sizes='<<1,2,3,5>>', Periods='<<0,0,1,2,3,50>>', MaxComps='3', MPeriods='<<1,1,2,3>>', Plans='<<"count","split","drop","grow">>'),
         quick=dict(num=150, shards=6), thorough=dict(num=2500, shards=8)),
  ]),
  "C20": dict(fam="ginac", tol=(1e-7, 1e-9), runs=[
    dict(name="gi_bfs", module="Ginac", mode="bfs", inv=GI_INV, props=["Frame", "CopySame", "Apart"],
         consts=dict(StateDims='<<1>>', InputDims='<<1>>', OutDims='<<1>>', Terms='<<1>>', Exps='<<1>>', Coeffs='<<"1">>', Vals='<<"3/2">>', Diags='<<"2">>', Offs='<<"0">>', Normals='<<"1/2">>',
                     Lists='<<0>>', MaxPdfs='2', MaxMods='1', Setups=GI_SETUPS, Ops='{"copy","prob","sample","model"}'),
         quick=dict(consts=dict(MaxLen='3')), thorough=dict(consts=dict(MaxLen='4'), mem=6000)),
    dict(name="gi_sim", module="Ginac", mode="sim", inv=GI_INV,
         consts=dict(StateDims='<<1,2,3>>', InputDims='<<1,1,2,3>>', OutDims='<<0,0,1,2,3>>', Terms='<<1,2,3>>', Exps='<<0,0,0,1,1,2>>', Coeffs='<<"1","-1","1/2","2","3/2","-3/4">>',
                     Vals='<<"0","1","-1","3/2","-1/2","2","1/4">>', Diags='<<"1","1/2","2","5/4">>', Offs='<<"0","0","1/2","-1/4">>', Normals='<<"0","1","-1","1/2","-3/2","2">>', Lists='<<0,1,2,5>>',
                     MaxPdfs='3', MaxMods='3', MaxLen='22', Setups='<<>>', Ops='{"copy","prob","sample","model"}'),
         quick=dict(num=120, shards=6), thorough=dict(num=1500, shards=8)),
  ]),
  "C21": dict(fam="kf", tol=(1e-6, 1e-8), runs=[
    dict(name="sr_bfs", module="Kalman", mode="bfs", inv=KF_INV, consts=dict(KF_NONE, Setups=SR_SETUPS, Vals='<<"-1","2">>', Ghost='40', Ops='{}'),
         quick=dict(consts=dict(MaxLen='3')), thorough=dict(consts=dict(MaxLen='4'), mem=6000)),
    dict(name="sr_sim", module="Kalman", mode="sim", inv=KF_INV, consts=dict(KF_SIM, FTypes='<<"sr">>', Innovs='<<"none">>', Lins='<<"lin","lin","non","mix">>', Ops='{"retune","write","reset","priorset"}'),
         quick=dict(num=150, shards=7), thorough=dict(num=1500, shards=8)),
  ]),
  "C22": dict(fam="psm", tol=(1e-7, 1e-10), runs=[
    dict(name="psm_bfs", module="PSmooth", mode="bfs", inv=PS_INV, consts=dict(PF_NONE, Setups=PF_SETUPS, Draws='<<>>'),
         quick=dict(consts=dict(MaxLen='3')), thorough=dict(consts=dict(MaxLen='4'), mem=6000)),
    dict(name="psm_sim", module="PSmooth", mode="sim", inv=PS_INV, consts=dict(PF_SIM, FTypes='<<"boot">>', Periods='<<0>>', NumMeas='1', Sizes='<<1,2,3,5,8>>'),
         quick=dict(num=200, shards=7), thorough=dict(num=2000, shards=8)),
  ]),
  "C23": dict(fam="ekpf", tol=(1e-6, 1e-9), runs=[
    dict(name="ekpf_bfs", module="EkPf", mode="bfs", inv=EK_INV, consts=dict(EK_NONE, Setups=EK_SETUPS, Vals='<<"-1","2">>', Normals='<<"0","3/2">>', Draws='<<"1/5","3/4">>'),
         quick=dict(consts=dict(MaxLen='3')), thorough=dict(consts=dict(MaxLen='4'), mem=6000)),
    dict(name="ekpf_sim", module="EkPf", mode="sim", inv=EK_INV, consts=EK_SIM,
         quick=dict(num=150, shards=7), thorough=dict(num=1500, shards=8)),
  ]),
  "C24": dict(fam="rng", tol=(0, 0.02), runs=[
    dict(name="rng_bfs", module="Rng", mode="bfs", inv=["Law"], consts=dict(RNG, Menu=_G("std", 0, 1) + ' \\o ' + _G("norm", 1, 2) + ' \\o ' + _G("unif", -3, 1), Rounds='40000', MaxGens='2'),
         quick=dict(consts=dict(MaxLen='1')), thorough=dict(consts=dict(MaxLen='2'))),
    dict(name="rng_sim", module="Rng", mode="sim", inv=["Law"], consts=dict(RNG, Menu=RNG_MENU, Rounds='40000', MaxGens='4', MaxLen='4'),
         quick=dict(num=20, shards=2), thorough=dict(num=100, shards=4)),
  ]),
}


# The same specifications at sizes far from the small ones above: a few behaviours each.
def _big(pid, base, num, shards, tnum, **over):
    r = next(x for x in PROPS[pid]["runs"] if x["name"] == base)
    PROPS[pid]["runs"].append(dict(r, name=base.replace("_sim", "_big"), consts=dict(r["consts"], **over), quick=dict(num=num, shards=shards), thorough=dict(num=tnum, shards=8)))


_PFB = dict(Sizes='<<17,30,64>>', MaxLen='16', NumSys='3', NumMeas='3', Kinds='<<"gauss","table">>')
_KFB = dict(Dims='<<5,6,7>>', MDims='<<1,2,4,5,6>>', NumSys='3', NumMeas='4', MaxLen='12')
_big("C01", "hist_sim", 2, 4, 40, Sizes='<<13,17>>', Liks='<<"1","2","5","1/2","1/1000","10">>', Rows='<<"0","1","2","1/2">>', MaxLen='30', NumSys='2', NumMeas='2', Ghost='1')
_big("C02", "disc_sim", 4, 2, 60, Sizes='<<20,33,64,100>>', MaxLen='60')
_big("C03", "disc_sim", 4, 2, 60, Sizes='<<20,33,64,100>>', Lists='<<0,2,20,65>>', MaxLen='40')
_big("C04", "mc_sim", 2, 3, 30, Sizes='<<20,40,70>>', MaxLen='16')
_big("C05", "mcs_sim", 3, 3, 40, Sizes='<<20,40,70>>', Lists='<<0,3,20,70,90>>', MaxLen='16')
_big("C06", "pf_sim", 4, 6, 40, **_PFB)
_big("C07", "pfr_sim", 4, 6, 40, **_PFB, Periods='<<0,1,2,5,7>>')
_big("C08", "kf_sim", 3, 6, 40, **_KFB)
_big("C09", "ekf_sim", 3, 6, 40, **_KFB)
_big("C10", "rts_sim", 2, 6, 30, **_KFB)
_big("C11", "gauss_sim", 4, 4, 60, Dims='<<7,8,10>>', Lists='<<0,3,20,40>>', MaxLen='20')
_big("C12", "unif_sim", 6, 2, 80, Dims='<<7,9,14,20>>', Lists='<<0,3,20,40>>', MaxLen='30')
_big("C13", "mix_sim", 4, 4, 60, Counts='<<10,20>>', MaxComp='26', Dims='<<1,3,6>>', MaxLen='40')
_big("C14", "mixs_sim", 4, 4, 60, Counts='<<10,20>>', MaxComp='26', Dims='<<1,3,6>>', Lists='<<0,3,20,40>>', MaxLen='30')
_big("C15", "mat_sim", 6, 4, 80, Dims='<<3,5,6,7>>', MaxLen='24')
_big("C15", "mat_fact", 6, 3, 80, Dims='<<6,7>>', MaxLen='12')
PROPS["C15"]["runs"][-1]["name"] = "mat_factbig"
_big("C16", "cg_sim", 4, 4, 60, Dims='<<5,6,8>>', ArgCounts='<<1,2,4,6>>', Lists='<<0,3,20>>', MaxLen='20')
_big("C17", "mod_sim", 6, 4, 60, Dims='<<5,6>>', MaxMods='6', MaxPdfs='5', MaxLen='40')
_big("C18", "dc_sim", 4, 3, 60, Sizes='<<3,12,20>>', ArgDims='<<2,3,5,9>>', ArgCounts='<<2,3,4>>', Lists='<<0,2,30>>', MaxLen='40')
_big("C19", "mpf_sim", 2, 6, 40, Sizes='<<6,12,20>>', MaxComps='6', MaxLen='12')
_big("C20", "gi_sim", 3, 5, 60, StateDims='<<4,5>>', InputDims='<<2,4>>', OutDims='<<0,4,5>>', Terms='<<2,4>>', Exps='<<0,0,0,0,1,1,3>>', Lists='<<0,2,12>>', MaxLen='14')
_big("C21", "sr_sim", 3, 6, 40, **_KFB)
_big("C22", "psm_sim", 3, 6, 40, Sizes='<<12,20,33>>', NumSys='3')
_big("C23", "ekpf_sim", 2, 6, 40, Dims='<<1,2,4>>', MDims='<<1,3>>', Sizes='<<6,10,16>>', MaxLen='8')


# The same specifications with values of another magnitude: an absolute threshold anywhere shows up here.
def _scaled(seq, f):
    """Multiply the rationals of a TLA+ sequence of strings by f."""
    from fractions import Fraction
    import re
    return re.sub(r'"(-?[0-9/]+)"', lambda m: '"%s"' % (Fraction(m.group(1)) * f), seq)


def _scale(pid, base, name, num, shards, tnum, tol=None, **over):
    from fractions import Fraction
    r = next(x for x in PROPS[pid]["runs"] if x["name"] == base)
    c = {k: (v if v[0] in '<{' or k not in r["consts"] else _scaled(r["consts"][k], Fraction(v))) for k, v in over.items()}
    n = dict(r, name=base.split("_")[0] + "_" + name, consts=dict(r["consts"], **c), quick=dict(num=num, shards=shards), thorough=dict(num=tnum, shards=8))
    if tol:
        n["tol"] = tol
    PROPS[pid]["runs"].append(n)


_T = "1/1000000000000000000"
_TINYW = '<<"0","%s","3/1000000000000000000","1/100000000000000000","1","2","1/1000000000","1000000000000"' % _T + '>>'
_TINYL = '<<"0","%s","3/1000000000000000000","2/1000000000000000000","7/10000000000000000000"' % _T + '>>'
_scale("C01", "hist_sim", "tiny", 40, 3, 400, Liks=_TINYL)
_scale("C02", "disc_sim", "tiny", 60, 2, 600, Weights=_TINYW)
_scale("C03", "disc_sim", "tiny", 60, 2, 600, Weights=_TINYW)
_scale("C04", "mc_sim", "tiny", 20, 3, 200, Weights=_TINYW, Vals='<<"0","1000","-1000","2500","1/1000","-3/1000","7/1000">>', UVals='<<"0","1","1000","70000","123456">>')
_scale("C05", "mcs_sim", "tiny", 30, 2, 300, Weights=_TINYW)
_scale("C06", "pf_sim", "tiny", 60, 3, 600, Kinds='<<"table">>', Liks=_TINYL)
_scale("C06", "pf_sim", "large", 60, 3, 600, Kinds='<<"gauss">>', Diags="100", Offs="100")
_scale("C07", "pfr_sim", "tiny", 60, 3, 600, Kinds='<<"table">>', Liks=_TINYL)
_SM = dict(tol=(1e-6, [1e-13]), Diags="1/8192", Offs="1/8192")
_scale("C08", "kf_sim", "small", 40, 4, 300, **_SM)
_scale("C09", "ekf_sim", "small", 40, 4, 300, **dict(_SM, Iters='<<1,2>>'))
_scale("C10", "rts_sim", "small", 30, 4, 250, **_SM)
_scale("C21", "sr_sim", "small", 40, 4, 300, **_SM)
_scale("C11", "gauss_sim", "small", 40, 4, 400, tol=(1e-8, [1e-18]), Diags="1/8192", Offs="1/8192", Vals="1/8192")
_scale("C11", "gauss_sim", "large", 40, 4, 400, tol=(1e-8, [1e-30]), Diags='<<"1024","512","1536","2048">>', Offs="1024", Vals="1024")
_scale("C12", "unif_sim", "scale", 40, 2, 400, tol=(1e-9, [1e-40]), Widths='<<"1/1048576","1/4096","1","65536","1048576">>')
_scale("C13", "mix_sim", "tiny", 40, 3, 400, Weights=_TINYW)
_scale("C14", "mixs_sim", "tiny", 40, 3, 400, Weights=_TINYW)
_scale("C15", "mat_fact", "small", 60, 3, 600, tol=(1e-9, [1e-40]), Unit="1/131072", Vals="1/131072", Ops='{"make","ask","fact"}')
_scale("C15", "mat_fact", "large", 60, 3, 600, tol=(1e-9, [1e-40]), Unit="131072", Vals="131072", Ops='{"make","ask","fact"}')
_scale("C16", "cg_sim", "small", 40, 4, 400, tol=(1e-8, [1e-18]), Diags="1/8192", Offs="1/8192")
_scale("C19", "mpf_sim", "tiny", 30, 3, 300, Kinds='<<"table">>', Liks=_TINYL)
_scale("C22", "psm_sim", "tiny", 40, 3, 300, Kinds='<<"table">>', Liks=_TINYL)
_scale("C23", "ekpf_sim", "large", 40, 4, 300, Diags="4", Offs="4")
# particles and measurements so far out that a density is zero
_FARN = '<<"0","1","-1","1/3","-1/2","7/5","0","1","-1","1/3","-1/2","7/5","0","1","-1","1/3","-1/2","7/5","50">>'
_FARV = '<<"0","1","-1","1/2","-3/2","2","0","1","-1","1/2","-3/2","2","300">>'
_scale("C06", "pf_sim", "far", 60, 3, 600, Kinds='<<"gauss">>', Normals=_FARN, Vals=_FARV, Dims='<<1,2>>', Sizes='<<2,3,5>>')
_scale("C19", "mpf_sim", "far", 40, 3, 400, Kinds='<<"gauss">>', Normals=_FARN, Vals=_FARV, Dims='<<1,2>>', Sizes='<<2,3>>')
_scale("C22", "psm_sim", "far", 30, 3, 300, Kinds='<<"gauss">>', Normals=_FARN, Vals=_FARV, Dims='<<1,2>>', Sizes='<<2,3,5>>')
# counters and buffers of 8 bits and more
def _huge(pid, base, num, shards, tnum, **over):
    _big(pid, base, num, shards, tnum, **over)
    PROPS[pid]["runs"][-1]["name"] = base.split("_")[0] + "_huge"


_EASYW = '<<"0","1","2","5","1","3">>'
_huge("C02", "disc_sim", 2, 1, 10, Sizes='<<300>>', Weights=_EASYW, MaxObjs='2', MaxLen='8')
_huge("C03", "disc_sim", 2, 1, 10, Sizes='<<300>>', Weights=_EASYW, MaxObjs='1', Lists='<<0,2,20,300>>', MaxLen='10')
_huge("C04", "mc_sim", 2, 1, 10, Sizes='<<300>>', Weights=_EASYW, MaxObjs='2', MaxLen='6', Dims='<<1,2>>')
_huge("C05", "mcs_sim", 2, 1, 10, Sizes='<<300>>', Weights=_EASYW, Lists='<<0,3,300,320>>', MaxObjs='1', MaxLen='10', Dims='<<1,2>>')
_huge("C06", "pf_sim", 2, 2, 10, Kinds='<<"table">>', Sizes='<<300>>', Weights=_EASYW, Periods='<<0,2>>', Thresholds='<<"3/2","100">>', MaxLen='6')
_huge("C11", "gauss_sim", 2, 1, 10, Dims='<<1,2>>', Lists='<<300>>', MaxLen='8')
_huge("C14", "mixs_sim", 2, 1, 10, Counts='<<2,3>>', Dims='<<1,2>>', Lists='<<300>>', MaxLen='6', Ops='{"weight","sample"}')


# long histories: counters, drift of what is kept from step to step
def _long(pid, base, num, shards, tnum, n=300, **over):
    _big(pid, base, num, shards, tnum, **dict(over, MaxLen=str(n)))
    PROPS[pid]["runs"][-1]["name"] = base.split("_")[0] + "_long"


_PFL = dict(Sizes='<<2,3>>', Kinds='<<"table">>', NumSys='2', NumMeas='2', Liks='<<"1","2","5","1/3","7/10">>', Rows1='<<"1","2","5","1/3">>', Weights='<<"1","2","5">>')
_KFL = dict(Dims='<<1,2>>', MDims='<<1,2>>')
_long("C01", "hist_sim", 1, 3, 10, Sizes='<<2,3>>', Ghost='1')
_long("C02", "disc_sim", 1, 2, 10, Sizes='<<2,4>>')
_long("C03", "disc_sim", 1, 2, 10, Sizes='<<2,4>>', Lists='<<0,2,5>>', Ops='{"set","sample"}')
_long("C04", "mc_sim", 1, 2, 10, Sizes='<<2,3>>')
_long("C05", "mcs_sim", 1, 2, 10, Sizes='<<2,3>>', Lists='<<0,2,4>>')
_long("C06", "pf_sim", 2, 3, 10, **_PFL, Periods='<<0,3,100>>')
_long("C07", "pfr_sim", 1, 3, 10, **_PFL, Periods='<<0,2,100>>')
_long("C08", "kf_sim", 1, 3, 10, **_KFL)
_long("C09", "ekf_sim", 1, 3, 10, **_KFL)
_long("C10", "rts_sim", 1, 3, 10, **_KFL)
_long("C13", "mix_sim", 1, 2, 10, Dims='<<1>>')
_long("C17", "mod_sim", 1, 2, 10, Dims='<<1,2>>')
_long("C19", "mpf_sim", 2, 3, 10, 120, **dict(_PFL, Liks='<<"1","6/5","9/10">>', Rows1='<<"1","2">>'), Periods='<<0,3,7>>', MaxComps='2')
_long("C21", "sr_sim", 1, 3, 10, **_KFL)
_long("C22", "psm_sim", 1, 3, 10, **_PFL)
_long("C23", "ekpf_sim", 1, 3, 10, Dims='<<1>>', MDims='<<1>>', Sizes='<<1,2>>')
