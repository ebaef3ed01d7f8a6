NA = {}
T = ['GGGGC_FEATURE_TAGGING']
X = ['GGGGC_FEATURE_EXTTAG']
J = ['GGGGC_FEATURE_JITPSTACK']
F = ['GGGGC_FEATURE_FINALIZERS']
G = ['GGGGC_POOL_SIZE=11', 'GGGGC_CARD_SIZE=7']
M = ['GGGGC_COLLECTOR=portablems', 'GGGGC_POOL_SIZE=11']
M12 = ['GGGGC_COLLECTOR=portablems', 'GGGGC_POOL_SIZE=12']
D = ['GGGGC_DEBUG_MEMORY_CORRUPTION']
P12 = ['GGGGC_POOL_SIZE=12', 'GGGGC_CARD_SIZE=7']
CHECKS = {
 'C01': dict(jobs=[dict(name='graph', harness='c01_graph.c', defs=G+['N=2','AGES=3'], covers=['end','two live roots']),
   dict(name='prog', harness='c01_prog.c', defs=G+['K=3'], covers=['end']),
   dict(name='prog4', harness='c01_prog.c', defs=G+['K=4'], tier='thorough', covers=['end']),
   dict(name='promo2', harness='c01_promo.c', defs=G+['N=2']),
   dict(name='promo3', harness='c01_promo.c', defs=G+['N=2','GGGGC_GENERATIONS=3']),
   dict(name='escal2', harness='c01_escal.c', defs=G+['XN=26'], covers=['end','description left behind','part of the graph left behind']),
   dict(name='escal3', harness='c01_escal.c', defs=G+['GGGGC_GENERATIONS=3'], covers=['end']),
   dict(name='escal4', harness='c01_escal.c', defs=G+['GGGGC_GENERATIONS=4','N=2','L=2'], covers=['end']),
   dict(name='escalext', harness='c01_escal.c', defs=G+X+['XN=26'], covers=['end']),
   dict(name='escalext3', harness='c01_escal.c', defs=G+X+['GGGGC_GENERATIONS=3','N=2','L=2'], covers=['end']),
   dict(name='escaldbg', harness='c01_escal.c', defs=G+D+['N=2','L=2','XN=26'], covers=['end']),
   dict(name='escalown3', harness='c01_escal.c', defs=G+['OWNREFS=1','GGGGC_GENERATIONS=3','N=2','L=2'], covers=['end']),
   dict(name='escalfin', harness='c01_escal.c', defs=G+F+['N=2','L=2','XN=26'], covers=['end']),
   dict(name='deep', harness='c01_deep.c', defs=['GGGGC_POOL_SIZE=15','GGGGC_CARD_SIZE=9'], covers=['end']),
   dict(name='deepg1', harness='c01_deep.c', defs=['GGGGC_POOL_SIZE=15','GGGGC_CARD_SIZE=9','GGGGC_GENERATIONS=1'], covers=['end']),
   dict(name='deepg3', harness='c01_deep.c', defs=['GGGGC_POOL_SIZE=15','GGGGC_CARD_SIZE=9','GGGGC_GENERATIONS=3','LENS=8'], covers=['end']),
   dict(name='frag', harness='c01_frag.c', defs=G+['M=10']),
   dict(name='frag0', harness='c01_frag.c', defs=G+['M=10','AGE=0']),
   dict(name='frag2', harness='c01_frag.c', defs=G+['M=10','AGE=2']),
   dict(name='fragbig', harness='c01_frag.c', defs=['GGGGC_POOL_SIZE=12','GGGGC_CARD_SIZE=7','M=60','NSYM=8','SYMAT=20']),
   dict(name='fragmin', harness='c01_frag.c', defs=['GGGGC_POOL_SIZE=12','GGGGC_CARD_SIZE=7','M=60','NSYM=8','SYMAT=0','BODY(i)=2']),
 ]),
 'C05': dict(jobs=[
   dict(name='mask', harness='c05_layout.c', defs=G+['MODE=0'], covers=['end']),
   dict(name='maskg1', harness='c05_layout.c', defs=G+['MODE=0','GGGGC_GENERATIONS=1'], covers=['end']),
   dict(name='maskdbg', harness='c05_layout.c', defs=G+['MODE=0','GGGGC_DEBUG_MEMORY_CORRUPTION'], covers=['end']),
   dict(name='wide', harness='c05_layout.c', defs=['GGGGC_POOL_SIZE=12','GGGGC_CARD_SIZE=7','MODE=1','BODY=135'], covers=['end']),
   dict(name='wide2', harness='c05_layout.c', defs=['GGGGC_POOL_SIZE=12','GGGGC_CARD_SIZE=7','MODE=6','BODY=135','WINDOW={0x8000000000000002ul,0xc000000000000003ul,3ul,0}'], covers=['end']),
   dict(name='pa', harness='c05_layout.c', defs=['GGGGC_POOL_SIZE=12','GGGGC_CARD_SIZE=7','MODE=2','BODY=8','LEN0=0'], covers=['end']),
   dict(name='pa64', harness='c05_layout.c', defs=['GGGGC_POOL_SIZE=12','GGGGC_CARD_SIZE=7','MODE=2','BODY=12','LEN0=56'], covers=['end']),
   dict(name='da', harness='c05_layout.c', defs=['GGGGC_POOL_SIZE=12','GGGGC_CARD_SIZE=7','MODE=3','BODY=8','LEN0=0'], covers=['end']),
   dict(name='far', harness='c05_layout.c', defs=G+['MODE=4'], covers=['end']),
   dict(name='fat', harness='c05_layout.c', defs=['GGGGC_POOL_SIZE=12','GGGGC_CARD_SIZE=7','MODE=5'], covers=['end']),
   dict(name='mask9', harness='c05_layout.c', defs=G+['MODE=0','BODY=9'], covers=['end']),
   dict(name='mask12', harness='c05_layout.c', defs=G+['MODE=0','BODY=12'], tier='thorough', covers=['end']),
   dict(name='wide200', harness='c05_layout.c', defs=P12+['MODE=1','BODY=200','GGGGC_GENERATIONS=1'], covers=['end']),
   dict(name='pair', harness='c05_layout.c', defs=P12+['MODE=1','BODY=66','NREF=2','GGGGC_GENERATIONS=1'], covers=['end']),
   dict(name='maskg3', harness='c05_layout.c', defs=G+['MODE=0','GGGGC_GENERATIONS=3'], covers=['end']),
   dict(name='widedbg', harness='c05_layout.c', defs=P12+D+['MODE=1','BODY=135'], covers=['end']),
   dict(name='wideg1', harness='c05_layout.c', defs=P12+['MODE=1','BODY=135','GGGGC_GENERATIONS=1'], covers=['end']),
   dict(name='pmsmask', harness='c05_layout.c', defs=M+['MODE=0'], covers=['end']),
   dict(name='pmswide', harness='c05_layout.c', defs=M12+['MODE=1','BODY=135'], covers=['end']),
   dict(name='pmswide2', harness='c05_layout.c', defs=M12+['MODE=6','BODY=135','WINDOW={0x8000000000000002ul,0xc000000000000003ul,3ul,0}'], covers=['end']),
   dict(name='pmspa64', harness='c05_layout.c', defs=M12+['MODE=2','BODY=12','LEN0=56'], covers=['end']),
   dict(name='pmsda', harness='c05_layout.c', defs=M12+['MODE=3','BODY=8','LEN0=0'], covers=['end']),
   dict(name='pmsfar', harness='c05_layout.c', defs=M+['MODE=4'], covers=['end']),
   dict(name='pmsfat', harness='c05_layout.c', defs=M12+['MODE=5'], covers=['end']),
   dict(name='pmsext', harness='c05_layout.c', defs=M+X+['MODE=0'], covers=['end']),
   dict(name='extpa', harness='c05_layout.c', defs=P12+['MODE=2','BODY=6','LEN0=60']+X, covers=['end']),
   dict(name='extwide', harness='c05_layout.c', defs=P12+['MODE=1','BODY=70']+X, covers=['end']),
 ]),
 'C02': dict(jobs=[
   dict(name='escal2', harness='c01_escal.c', defs=G+['XN=26'], covers=['end','description left behind','part of the graph left behind']),
   dict(name='escal3', harness='c01_escal.c', defs=G+['GGGGC_GENERATIONS=3'], covers=['end']),
   dict(name='g2', harness='c02_remember.c', defs=G+['NH=20','ARR=12'], covers=['end']),
   dict(name='g2b', harness='c02_remember.c', defs=G+['NH=6','ARR=50','FULLFIRST'], covers=['end']),
   dict(name='exact', harness='c02_remember.c', defs=G+['NH=14','ARR=8','EXACT','NCOL=1'], covers=['end']),
   dict(name='exactfull', harness='c02_remember.c', defs=['GGGGC_POOL_SIZE=11','GGGGC_CARD_SIZE=10','NH=14','ARR=8','EXACT','FULLFIRST','HFIRST','NCOL=1'], covers=['end','first card','full region']),
   dict(name='pad', harness='c02_remember.c', defs=G+['NH=9','ARR=8','PAD=64','NCOL=1'], covers=['end']),
   dict(name='padg3', harness='c02_remember.c', defs=G+['NH=6','ARR=4','PAD=50','NCOL=1','GGGGC_GENERATIONS=3'], covers=['end']),
   dict(name='g3', harness='c02_remember.c', defs=G+['NH=9','ARR=30','GGGGC_GENERATIONS=3'], covers=['end']),
   dict(name='g5', harness='c02_remember.c', defs=G+['NH=9','ARR=6','GGGGC_GENERATIONS=5','NCOL=2'], covers=['end']),
 ]),
 'C13': dict(jobs=[
   dict(name='k1', harness='c13_list.c', defs=G+['K=1','L0=3','GCMODES=6'], covers=['end']),
   dict(name='k1g1', harness='c13_list.c', defs=G+['K=1','L0=2','GCMODES=6','GGGGC_GENERATIONS=1'], covers=['end']),
   dict(name='k1g3', harness='c13_list.c', defs=G+['K=1','L0=2','GCMODES=6','GGGGC_GENERATIONS=3'], covers=['end']),
   dict(name='k1dbg', harness='c13_list.c', defs=G+D+['K=1','L0=2','GCMODES=5'], covers=['end']),
   dict(name='pms', harness='c13_list.c', defs=M+['K=2','L0=2','GCMODES=2'], covers=['end']),
   dict(name='k2long', harness='c13_list.c', defs=G+['K=2','L0=4','GCMODES=2'], covers=['end']),
   dict(name='k2', harness='c13_list.c', defs=G+['K=2','L0=2','GCMODES=3'], covers=['end']),
   dict(name='k3', harness='c13_list.c', defs=G+['K=3','L0=1','GCMODES=1'], covers=['end']),
 ]),
 'C14': dict(jobs=[
   dict(name='p1', harness='c14_map.c', defs=G+['NPUT=1','GCMODES=4'], covers=['end']),
   dict(name='p2', harness='c14_map.c', defs=G+['NPUT=2','GCMODES=4'], covers=['end','found','absent']),
   dict(name='p3', harness='c14_map.c', defs=G+['NPUT=3','GCMODES=2'], covers=['end','found','absent']),
   dict(name='p4', harness='c14_map.c', defs=G+['NPUT=4','GCMODES=4','DISTINCT=3','GCMAX=1','GCFROM=3','ONEGET'], covers=['end','found','absent']),
   dict(name='p5', harness='c14_map.c', defs=G+['NPUT=5','GCMODES=2','DISTINCT=4','HMASK=5','GCMAX=1','GCFROM=3','ONEGET'], covers=['end','found','absent']),
   dict(name='c4', harness='c14_map.c', defs=G+['NPUT=4','GCMODES=3','DISTINCT=4','HMASK=5','GCMAX=1','GCFROM=4','CLONE','ONEGET'], covers=['end','found','absent']),
   dict(name='cleave', harness='c14_map.c', defs=G+['NPUT=3','GCMODES=3','LEAVES=48','DISTINCT=3','HMASK=2','GCMAX=1','GCFROM=3','CLONE','ONEGET'], covers=['end','found','absent']),
   dict(name='cleave1', harness='c14_map.c', defs=G+['NPUT=3','GCMODES=3','LEAVES=48','DISTINCT=3','HMASK=1','GCMAX=1','GCFROM=3','CLONE','ONEGET','GGGGC_GENERATIONS=1'], covers=['end','found','absent']),
   dict(name='pleave', harness='c14_map.c', defs=G+['NPUT=4','GCMODES=3','LEAVES=40','DISTINCT=4','HMASK=4','GCMAX=1','GCFROM=2','ONEGET'], covers=['end','found','absent']),
   dict(name='pms', harness='c14_map.c', defs=M+['NPUT=3','GCMODES=2','DISTINCT=3','HMASK=3','GCMAX=1','GCFROM=2','CLONE','ONEGET'], covers=['end','found','absent']),
   dict(name='c2', harness='c14_map.c', defs=G+['NPUT=2','CLONE','POST=1','GCMODES=2'], tier='thorough', covers=['end','found','absent']),
 ]),
 'C08': dict(jobs=[
   dict(name='g2', harness='c08_final.c', defs=G+F+['NF=2','K=3','AGES=5','EV=5'], covers=['end','ran']),
   dict(name='g1', harness='c08_final.c', defs=G+F+['NF=2','K=3','AGES=5','EV=5','GGGGC_GENERATIONS=1'], covers=['end','ran']),
   dict(name='g3', harness='c08_final.c', defs=G+F+['NF=2','K=3','AGES=3','EV=6','GGGGC_GENERATIONS=3'], covers=['end','ran']),
   dict(name='alloc', harness='c08_final.c', defs=G+F+['NF=2','K=2','AGES=4','EV=4','ALLOCFIN'], covers=['end','ran']),
   dict(name='regcol', harness='c08_final.c', defs=G+F+['NF=2','K=2','AGES=7','EV=4'], covers=['end','ran']),
   dict(name='regcolg1', harness='c08_final.c', defs=G+F+['NF=2','K=2','AGES=7','EV=4','GGGGC_GENERATIONS=1'], covers=['end','ran']),
   dict(name='pms', harness='c08_final.c', defs=M+F+['NF=2','K=2','AGES=7','EV=5'], covers=['end','ran']),
   dict(name='keep', harness='c08_final.c', defs=G+F+['NF=2','K=3','AGES=2','EV=4','RESURRECT'], covers=['end','ran']),
   dict(name='n3', harness='c08_final.c', defs=G+F+['NF=3','K=2','AGES=3','EV=4','LASTNULL'], covers=['end','ran']),
 ]),
 'C09': dict(jobs=[
   dict(name='int', harness='c09_tag.c', defs=G+T+['NCOL=1'], covers=['end','tagged','untagged']),
   dict(name='intages', harness='c09_tag.c', defs=G+T+['NCOL=1','AGES=3'], tier='thorough', covers=['end','tagged','untagged']),
   dict(name='intg3', harness='c09_tag.c', defs=G+T+['NCOL=1','N=1','AGES=4','GGGGC_GENERATIONS=3'], covers=['end','tagged','untagged']),
   dict(name='int2', harness='c09_tag.c', defs=G+T+['NCOL=2','N=1','AGES=3'], covers=['end','tagged','untagged']),
   dict(name='intdbg', harness='c09_tag.c', defs=G+T+['NCOL=2','N=1','AGES=3','GGGGC_DEBUG_MEMORY_CORRUPTION'], covers=['end','tagged','untagged']),
   dict(name='int1', harness='c09_tag.c', defs=G+T+['NCOL=2','N=1','GGGGC_GENERATIONS=1'], covers=['end','tagged','untagged']),
   dict(name='ext', harness='c09_ext.c', defs=G+X, covers=['end','data','ref']),
   dict(name='extg3', harness='c09_ext.c', defs=G+X+['GGGGC_GENERATIONS=3'], covers=['end','data','ref']),
   dict(name='ext1', harness='c09_ext.c', defs=G+X+['GGGGC_GENERATIONS=1'], covers=['end','data','ref']),
   dict(name='extdbg', harness='c09_ext.c', defs=G+X+['GGGGC_DEBUG_MEMORY_CORRUPTION'], covers=['end','data','ref']),
   dict(name='extgraph', harness='c01_graph.c', defs=G+X+['N=2','NCOL=2'], covers=['end']),
   dict(name='extpa', harness='c05_layout.c', defs=['GGGGC_POOL_SIZE=12','GGGGC_CARD_SIZE=7','MODE=2','BODY=6','LEN0=300']+X, covers=['end']),
   dict(name='extmask', harness='c05_layout.c', defs=G+['MODE=0']+X, covers=['end']),
 ]),
 'C10': dict(jobs=[
   dict(name='plain', harness='c10_jit.c', defs=G+J+['D=3','AGES=3'], covers=['end','ref']),
   dict(name='plain5', harness='c10_jit.c', defs=G+J+['D=4','NCOL=1'], covers=['end','ref']),
   dict(name='g3', harness='c10_jit.c', defs=G+J+['D=2','GGGGC_GENERATIONS=3'], covers=['end','ref']),
   dict(name='g1', harness='c10_jit.c', defs=G+J+['D=3','GGGGC_GENERATIONS=1'], covers=['end','ref']),
   dict(name='tag', harness='c10_jit.c', defs=G+J+T+['D=3'], covers=['end','ref']),
   dict(name='ext', harness='c10_jit.c', defs=G+J+X+['D=3','NCOL=1'], covers=['end','ref']),
   dict(name='extfull', harness='c10_jit.c', defs=G+J+X+['D=12','NCOL=1','FULL=8'], covers=['end','ref']),
   dict(name='ext1', harness='c10_jit.c', defs=G+J+X+['D=4','NCOL=1','GGGGC_GENERATIONS=1'], covers=['end','ref']),
   dict(name='blocked', harness='c10_jit.c', defs=G+J+['D=2','WHO=1'], covers=['end','ref']),
   dict(name='mutex', harness='c10_jit.c', defs=G+J+['D=2','WHO=1','MUTEX'], covers=['end','ref']),
   dict(name='yield', harness='c10_jit.c', defs=G+J+['D=2','WHO=2'], covers=['end','ref']),
   dict(name='pms', harness='c10_jit.c', defs=['GGGGC_POOL_SIZE=11','GGGGC_COLLECTOR=portablems']+J+['D=3'], covers=['end','ref']),
   dict(name='pmstag', harness='c10_jit.c', defs=['GGGGC_POOL_SIZE=11','GGGGC_COLLECTOR=portablems']+J+T+['D=3'], covers=['end','ref']),
   dict(name='pmsext', harness='c10_jit.c', defs=['GGGGC_POOL_SIZE=11','GGGGC_COLLECTOR=portablems']+J+X+['D=4','NCOL=1'], covers=['end','ref']),
 ]),
 'C06': dict(jobs=[
   dict(name='wrap', harness='c06_cxx.c', lang='c++', defs=['GGGGC_POOL_SIZE=12','GGGGC_CARD_SIZE=7','K=3'], covers=['end']),
   dict(name='wrap4', harness='c06_cxx.c', lang='c++', defs=['GGGGC_POOL_SIZE=12','GGGGC_CARD_SIZE=7','K=4'], tier='thorough', covers=['end']),
   dict(name='gnuc', harness='c06_push.c', defs=['GGGGC_POOL_SIZE=12','GGGGC_CARD_SIZE=7'], covers=['end']),
   dict(name='nognuc', harness='c06_push.c', defs=['GGGGC_POOL_SIZE=12','GGGGC_CARD_SIZE=7','GGGGC_NO_GNUC_FEATURES'], covers=['end']),
   dict(name='cxx', harness='c06_push.c', lang='c++', defs=['GGGGC_POOL_SIZE=12','GGGGC_CARD_SIZE=7'], covers=['end']),
   dict(name='cxxraii', harness='c06_push.c', lang='c++', defs=['GGGGC_POOL_SIZE=12','GGGGC_CARD_SIZE=7','GGGGC_NO_GNUC_FEATURES'], covers=['end']),
 ]),
 'C07': dict(jobs=[
   dict(name='k4', harness='c07_globals.c', defs=G+['K=4'], covers=['end','globals']),
   dict(name='k5', harness='c07_globals.c', defs=G+['K=5','NSYM=1'], covers=['end','globals']),
   dict(name='k6', harness='c07_globals.c', defs=G+['K=6','NSYM=1'], tier='thorough', covers=['end','globals']),
   dict(name='rooted', harness='c07_globals.c', defs=G+['K=4','ROOTED'], covers=['end','globals']),
   dict(name='nognuc', harness='c07_globals.c', defs=G+['K=4','GGGGC_NO_GNUC_FEATURES'], covers=['end','globals']),
   dict(name='cxx', harness='c07_globals.c', lang='c++', defs=G+['K=4'], covers=['end','globals']),
   dict(name='cxxraii', harness='c07_globals.c', lang='c++', defs=G+['K=4','GGGGC_NO_GNUC_FEATURES'], covers=['end','globals']),
   dict(name='g1', harness='c07_globals.c', defs=G+['K=4','GGGGC_GENERATIONS=1'], covers=['end','globals']),
   dict(name='g3', harness='c07_globals.c', defs=G+['K=4','GGGGC_GENERATIONS=3'], covers=['end','globals']),
   dict(name='pms', harness='c07_globals.c', defs=['GGGGC_POOL_SIZE=11','GGGGC_COLLECTOR=portablems','K=4'], covers=['end','globals']),
 ]),
 'C04': dict(jobs=[
   dict(name='reuse', harness='c12_churn.c', defs=G+['KEEP','NALLOC=150','R=6','LATER=1','MAXPOOLS=16'], covers=['end']),
   dict(name='reuseg3', harness='c12_churn.c', defs=G+['GGGGC_GENERATIONS=3']+['KEEP','NALLOC=150','R=6','LATER=1','MAXPOOLS=16'], covers=['end']),
   dict(name='reusepms', harness='c12_churn.c', defs=M+['KEEP','NALLOC=150','R=6','LATER=1','MAXPOOLS=16'], covers=['end']),
   dict(name='fresh', harness='c04_fresh.c', defs=P12+['K=2','AGES=4'], covers=['end']),
   dict(name='fill', harness='c04_fresh.c', defs=P12+['K=1','FILL','LEAVES=9','LAST'], covers=['end']),
   dict(name='fillg1', harness='c04_fresh.c', defs=P12+['K=1','FILL','LEAVES=9','LAST','GGGGC_GENERATIONS=1'], covers=['end']),
   dict(name='g3', harness='c04_fresh.c', defs=P12+['K=1','AGES=5','LAST','GGGGC_GENERATIONS=3'], covers=['end']),
   dict(name='debug', harness='c04_fresh.c', defs=P12+['K=1','AGES=4','LAST','GGGGC_DEBUG_MEMORY_CORRUPTION'], covers=['end']),
   dict(name='ext', harness='c04_fresh.c', defs=P12+X+['K=1','AGES=4','LAST'], covers=['end']),
   dict(name='thread', harness='c04_fresh.c', defs=P12+['K=1','AGES=4','LAST','THREAD'], covers=['end']),
   dict(name='threadg1', harness='c04_fresh.c', defs=P12+['K=1','AGES=4','LAST','THREAD','GGGGC_GENERATIONS=1'], covers=['end']),
   dict(name='pmsthread', harness='c04_fresh.c', defs=['GGGGC_POOL_SIZE=12','GGGGC_COLLECTOR=portablems','K=1','LAST','THREAD'], covers=['end']),
   dict(name='pms', harness='c04_fresh.c', defs=['GGGGC_POOL_SIZE=12','GGGGC_COLLECTOR=portablems','K=2','LAST'], covers=['end']),
   dict(name='pmsdebug', harness='c04_fresh.c', defs=['GGGGC_POOL_SIZE=12','GGGGC_COLLECTOR=portablems','K=2','LAST','GGGGC_DEBUG_MEMORY_CORRUPTION'], covers=['end']),
   dict(name='overpa', harness='c04_large.c', defs=G+['MODE=0'], covers=['refused']),
   dict(name='overda', harness='c04_large.c', defs=G+['MODE=1'], covers=['refused']),
   dict(name='overel', harness='c04_large.c', defs=G+['MODE=2'], covers=['refused']),
   dict(name='max', harness='c04_large.c', defs=G+['MODE=3'], covers=['end']),
   dict(name='maxg1', harness='c04_large.c', defs=G+['MODE=3','GGGGC_GENERATIONS=1'], covers=['end']),
   dict(name='zero', harness='c04_large.c', defs=G+['MODE=4'], covers=['end']),
   dict(name='overpms', harness='c04_large.c', defs=['GGGGC_POOL_SIZE=11','GGGGC_COLLECTOR=portablems','MODE=1'], covers=['refused']),
 ]),
 'C15': dict(jobs=[
   dict(name='graph', harness='c01_graph.c', defs=M+['N=2','NCOL=2'], covers=['end']),
   dict(name='graphdbg', harness='c01_graph.c', defs=M+D+['N=2','NCOL=2'], covers=['end']),
   dict(name='prog', harness='c01_prog.c', defs=M+['K=4'], covers=['end']),
   dict(name='progdbg', harness='c01_prog.c', defs=M+D+['K=3'], covers=['end']),
   dict(name='frag', harness='c01_frag.c', defs=M+['M=10']),
   dict(name='fragdbg', harness='c01_frag.c', defs=M+D+['M=8']),
   dict(name='deep', harness='c01_deep.c', defs=['GGGGC_POOL_SIZE=15','GGGGC_COLLECTOR=portablems'], covers=['end']),
   dict(name='fresh', harness='c04_fresh.c', defs=M12+['K=2','LAST'], covers=['end']),
   dict(name='freshdbg', harness='c04_fresh.c', defs=M12+D+['K=2','LAST'], covers=['end']),
   dict(name='max', harness='c04_large.c', defs=M+['MODE=3'], covers=['end']),
   dict(name='mask', harness='c05_layout.c', defs=M+['MODE=0'], covers=['end']),
   dict(name='wide', harness='c05_layout.c', defs=M12+['MODE=1','BODY=135'], covers=['end']),
   dict(name='fin', harness='c08_final.c', defs=M+F+['NF=2','K=3','AGES=2','EV=4'], covers=['end','ran']),
   dict(name='finalloc', harness='c08_final.c', defs=M+F+['NF=2','K=2','AGES=2','EV=4','ALLOCFIN'], covers=['end','ran']),
   dict(name='finkeep', harness='c08_final.c', defs=M+F+['NF=2','K=3','AGES=2','EV=4','RESURRECT'], covers=['end','ran']),
   dict(name='findbg', harness='c08_final.c', defs=M+F+D+['NF=2','K=2','AGES=2','EV=4'], covers=['end','ran']),
   dict(name='finjit', harness='c08_final.c', defs=M+F+J+['NF=2','K=2','AGES=2','EV=4'], covers=['end','ran']),
   dict(name='bounded', harness='c03_bounded.c', defs=M+['R=60'], covers=['end','live']),
   dict(name='limit', harness='c03_bounded.c', defs=M+['R=60','LIMIT=2','BIG=40'], covers=['end','live']),
   dict(name='boundedfin', harness='c03_bounded.c', defs=M+F+['R=60'], covers=['end','live']),
   dict(name='boundeddbg', harness='c03_bounded.c', defs=M+D+['R=30'], covers=['end','live']),
   dict(name='fit', harness='c03_fit.c', defs=M+['DROP','LMAX=36'], covers=['end']),
   dict(name='tag', harness='c09_tag.c', defs=M+T+['NCOL=2','N=1'], covers=['end','tagged','untagged']),
   dict(name='tagdbg', harness='c09_tag.c', defs=M+T+D+['NCOL=2','N=1'], covers=['end','tagged','untagged']),
   dict(name='ext', harness='c09_ext.c', defs=M+X, covers=['end','data','ref']),
   dict(name='extdbg', harness='c09_ext.c', defs=M+X+D, covers=['end','data','ref']),
 ]),
 'C11': dict(jobs=[
   dict(name='w1', harness='c11_sched.c', defs=G+['SYMREF','K=1','P=2'], covers=['end']),
   dict(name='w1k2', harness='c11_sched.c', defs=G+['SYMREF','K=2','P=1'], covers=['end']),
   dict(name='w1p3', harness='c11_sched.c', defs=G+['K=1','P=3'], tier='thorough', covers=['end']),
   dict(name='w1k2p2', harness='c11_sched.c', defs=G+['K=2','P=2'], tier='thorough', covers=['end']),
   dict(name='w2', harness='c11_sched.c', defs=G+['W=2','K=1','P=1'], covers=['end']),
   dict(name='w2p2', harness='c11_sched.c', defs=G+['W=2','K=1','P=2'], tier='thorough', covers=['end']),
   dict(name='more', harness='c11_sched.c', defs=G+['SYMREF','K=1','P=2','OPS={4,7,8,9,10}','NOPS=5'], covers=['end']),
   dict(name='more2', harness='c11_sched.c', defs=G+['W=2','K=1','P=1','OPS={4,7,8,9,10}','NOPS=5'], tier='thorough', covers=['end']),
   dict(name='g1', harness='c11_sched.c', defs=G+['SYMREF','K=1','P=2','GGGGC_GENERATIONS=1','OPS={0,1,3,4,5,6,7,9}','NOPS=8'], covers=['end']),
   dict(name='g3', harness='c11_sched.c', defs=G+['SYMREF','K=1','P=2','GGGGC_GENERATIONS=3','AGED','OPS={0,1,2,3,4,9,10}','NOPS=7'], covers=['end']),
   dict(name='pms', harness='c11_sched.c', defs=M+['SYMREF','K=1','P=2','OPS={0,1,3,4,5,6,7}','NOPS=7'], covers=['end']),
   dict(name='pmsmore', harness='c11_sched.c', defs=M+['SYMREF','K=1','P=2','OPS={4,7,8,9,10}','NOPS=5'], covers=['end']),
   dict(name='fine', harness='c11_sched.c', fine=1, defs=G+['SYMREF','K=1','P=1'], covers=['end']),
   dict(name='fine2', harness='c11_sched.c', fine=1, defs=G+['RENDEZ','PICKS=2','W=2','K=1','P=1','OPS={1,3,5,7,10}','NOPS=5'], covers=['end']),
   dict(name='fine2p2', harness='c11_sched.c', fine=1, defs=G+['RENDEZ','PICKS=2','W=2','K=1','P=2','OPS={1,3,7}','NOPS=3'], tier='thorough', covers=['end']),
   dict(name='finepms', harness='c11_sched.c', fine=1, defs=M+['SYMREF','RENDEZ','PICKS=2','W=2','K=1','P=1','OPS={1,3,5,7,10}','NOPS=5'], covers=['end']),
   dict(name='finew1p2', harness='c11_sched.c', fine=1, defs=G+['RENDEZ','K=1','P=2','OPS={1,3,5,7,9}','NOPS=5'], covers=['end']),
   dict(name='rendez2', harness='c11_sched.c', defs=G+['SYMREF','RENDEZ','W=2','K=1','P=1','OPS={0,1,3,4,7,10}','NOPS=6','PICKS=3'], covers=['end']),
   dict(name='sem', harness='c11_sched.c', defs=G+['SYMREF','RENDEZ','K=1','P=2','OPS={1,4,8,11}','NOPS=4'], covers=['end']),
   dict(name='pms2', harness='c11_sched.c', defs=M+['W=2','K=1','P=1','OPS={0,1,4,5,8}','NOPS=5'], tier='thorough', covers=['end']),
 ]),
'C12': dict(jobs=[
   dict(name='w1', harness='c12_life.c', defs=G+['GLOBALS'], covers=['end']),
   dict(name='w1p2', harness='c12_life.c', defs=G+['GLOBALS','P=2','POST=1'], covers=['end']),
   dict(name='fail', harness='c12_life.c', defs=G+['FAILS=1','POST=1'], covers=['end','refused']),
   dict(name='fail2', harness='c12_life.c', defs=G+['FAILS=2','P=0','POST=0','W=2','MOPS={0,1,2}','NMOPS=3','PRE=0'], covers=['end','refused']),
   dict(name='w2', harness='c12_life.c', defs=G+['GLOBALS','W=2','POST=1','MOPS={0,1,3}','NMOPS=3','WOPS={0,1,3}','NWOPS=3','PRE=0'], covers=['end']),
   dict(name='serial', harness='c12_life.c', defs=G+['GLOBALS','W=2','SERIAL','P=0','POST=1'], covers=['end']),
   dict(name='g1', harness='c12_life.c', defs=G+['GLOBALS','GGGGC_GENERATIONS=1','POST=1'], covers=['end']),
   dict(name='g3', harness='c12_life.c', defs=G+['GLOBALS','GGGGC_GENERATIONS=3','POST=2','P=0','SERIAL'], covers=['end']),
   dict(name='pms', harness='c12_life.c', defs=M+['GLOBALS'], covers=['end']),
   dict(name='pmsserial', harness='c12_life.c', defs=M+['GLOBALS','W=2','SERIAL','P=0','POST=1'], covers=['end']),
   dict(name='fine', harness='c12_life.c', fine=1, defs=G+['GLOBALS','POST=1','PRE=0'], covers=['end']),
   dict(name='fine2', harness='c12_life.c', fine=1, defs=G+['W=2','POST=1','PRE=0','MOPS={0,1}','NMOPS=2','WOPS={0,1}','NWOPS=2'], covers=['end']),
   dict(name='finepms', harness='c12_life.c', fine=1, defs=M+['GLOBALS','POST=1','PRE=0'], covers=['end']),
   dict(name='churn', harness='c12_churn.c', defs=G, covers=['end']),
   dict(name='keep', harness='c12_churn.c', defs=G+['KEEP','NALLOC=150','R=18','LATER=1','MAXPOOLS=16'], covers=['end']),
   dict(name='keepg3', harness='c12_churn.c', defs=G+['KEEP','NALLOC=150','R=18','LATER=1','MAXPOOLS=16','GGGGC_GENERATIONS=3'], covers=['end']),
   dict(name='keeppms', harness='c12_churn.c', defs=M+['KEEP','NALLOC=150','R=18','LATER=1','MAXPOOLS=16'], covers=['end']),
   dict(name='churng1', harness='c12_churn.c', defs=G+['GGGGC_GENERATIONS=1'], covers=['end']),
   dict(name='churnpms', harness='c12_churn.c', defs=M, covers=['end']),
 ]),
'C17': dict(jobs=[
   dict(name='escal', harness='c01_escal.c', defs=G+D+['N=2','L=2','XN=26'], covers=['end']),
   dict(name='guard', harness='c17_guard.c', defs=G+D, covers=['end','reported']),
   dict(name='guardg1', harness='c17_guard.c', defs=G+D+['GGGGC_GENERATIONS=1'], covers=['end','reported']),
   dict(name='guardg3', harness='c17_guard.c', defs=G+D+['GGGGC_GENERATIONS=3'], covers=['end','reported']),
   dict(name='guardext', harness='c17_guard.c', defs=G+D+X, covers=['end','reported']),
   dict(name='guardtag', harness='c17_guard.c', defs=G+D+T, covers=['end','reported']),
   dict(name='guardblocked', harness='c17_guard.c', defs=G+D+['WHO=1'], covers=['end','reported']),
   dict(name='guardyield', harness='c17_guard.c', defs=G+D+['WHO=2'], covers=['end','reported']),
   dict(name='guardpms', harness='c17_guard.c', defs=M+D, covers=['end','reported']),
   dict(name='guardpmsblocked', harness='c17_guard.c', defs=M+D+['WHO=1'], covers=['end','reported']),
   dict(name='graph', harness='c01_graph.c', defs=G+D+['N=2','AGES=3'], covers=['end']),
   dict(name='graphg3', harness='c01_graph.c', defs=G+D+['N=2','AGES=4','GGGGC_GENERATIONS=3'], covers=['end']),
   dict(name='graphg1', harness='c01_graph.c', defs=G+D+['N=2','GGGGC_GENERATIONS=1'], covers=['end']),
   dict(name='prog', harness='c01_prog.c', defs=G+D+['K=3'], covers=['end']),
   dict(name='frag', harness='c01_frag.c', defs=G+D+['M=8']),
   dict(name='promo', harness='c01_promo.c', defs=G+D+['N=2']),
   dict(name='remember', harness='c02_remember.c', defs=G+D+['NH=9','ARR=10'], covers=['end']),
   dict(name='exact', harness='c02_remember.c', defs=G+D+['NH=9','ARR=8','EXACT','NCOL=1'], covers=['end']),
   dict(name='fin', harness='c08_final.c', defs=G+D+F+['NF=2','K=2','AGES=4','EV=4'], covers=['end','ran']),
   dict(name='finalloc', harness='c08_final.c', defs=G+D+F+['NF=2','K=2','AGES=3','EV=4','ALLOCFIN'], covers=['end','ran']),
   dict(name='jit', harness='c10_jit.c', defs=G+D+J+['D=3','AGES=3'], covers=['end','ref']),
   dict(name='jittag', harness='c10_jit.c', defs=G+D+J+T+['D=3'], covers=['end','ref']),
   dict(name='globals', harness='c07_globals.c', defs=G+D+['K=4'], covers=['end','globals']),
   dict(name='sched', harness='c11_sched.c', defs=G+D+['K=1','P=1'], covers=['end']),
   dict(name='life', harness='c12_life.c', defs=G+D+['GLOBALS'], covers=['end']),
   dict(name='pmssched', harness='c11_sched.c', defs=M+D+['K=1','P=1','OPS={0,1,4,5,7}','NOPS=5'], covers=['end']),
 ]),
'C18': dict(jobs=[
   dict(name='n2', harness='c18_barrier.c', defs=G+['ENV_NO_BARRIERS','N=2','R=3','P=2'], covers=['end']),
   dict(name='n3', harness='c18_barrier.c', defs=G+['ENV_NO_BARRIERS','N=3','R=2','P=1'], covers=['end']),
   dict(name='n4', harness='c18_barrier.c', defs=G+['ENV_NO_BARRIERS','N=4','R=2','P=0','PICKS=6'], covers=['end']),
   dict(name='n3sym', harness='c18_barrier.c', defs=G+['ENV_NO_BARRIERS','N=3','R=2','P=1','SYMN'], covers=['end']),
   dict(name='fine2', harness='c18_barrier.c', fine=1, defs=G+['ENV_NO_BARRIERS','N=2','R=2','P=2','SYMN'], covers=['end']),
   dict(name='fine3', harness='c18_barrier.c', fine=1, defs=G+['ENV_NO_BARRIERS','N=3','R=1','P=1','SYMN','PICKS=6'], covers=['end']),
   dict(name='finedestroy2', harness='c18_barrier.c', fine=1, defs=G+['ENV_NO_BARRIERS','N=2','R=1','P=2','ONLY3'], covers=['end']),
   dict(name='destroy2', harness='c18_barrier.c', defs=G+['ENV_NO_BARRIERS','N=2','R=1','P=3','ONLY3'], covers=['end']),
   dict(name='destroy3', harness='c18_barrier.c', defs=G+['ENV_NO_BARRIERS','N=3','R=1','P=1','ONLY3','PICKS=8'], covers=['end']),
   dict(name='gc', harness='c11_sched.c', defs=G+['ENV_NO_BARRIERS','K=1','P=2','OPS={0,1,3,4,7,8,11}','NOPS=7'], covers=['end']),
 ]),
'C16': dict(jobs=[
   dict(name='malign', harness='c16_pools.c', defs=G+['WHICH=1','K=5','FAILS=3'], covers=['end','refused','aborted']),
   dict(name='malignth', harness='c16_pools.c', defs=G+['WHICH=1','K=2','T=2'], covers=['end']),
   dict(name='malloc', harness='c16_pools.c', defs=G+['WHICH=0','K=4','FAILS=0','GGGGC_USE_MALLOC','ENV_SKEW=env_malloc_skew_max=127;env_malloc_skew_align=2048;env_malloc_skew_min=4000'], covers=['end'], frontier=12),
   dict(name='mallocfail', harness='c16_pools.c', defs=G+['WHICH=0','FAILS=5','PRE=13','K=3','GGGGC_USE_MALLOC','ENV_SKEW=env_malloc_skew_max=1;env_malloc_skew_align=2048;env_malloc_skew_min=4000'], covers=['end','refused','aborted'], frontier=12),
   dict(name='mallocth', harness='c16_pools.c', defs=G+['WHICH=0','K=2','T=2','GGGGC_USE_MALLOC'], covers=['end']),
   dict(name='mmap', harness='c16_pools.c', defs=['GGGGC_POOL_SIZE=14','GGGGC_CARD_SIZE=7','WHICH=2','K=2','FAILS=2','ENV_NO_ADVISORY','ENV_SKEW=env_mmap_skew_max=3'], covers=['end','refused','aborted']),
   dict(name='sbrk', harness='c16_pools.c', defs=G+['WHICH=3','K=3','GGGGC_USE_SBRK','GGGGC_NO_THREADS','ENV_SKEW=env_malloc_sizemax=4096;env_sbrk_skew_max=4095;env_sbrk_skew_unit=1'], covers=['end'], frontier=12),
   dict(name='sbrkfail', harness='c16_pools.c', defs=G+['WHICH=3','K=3','FAILS=2','GGGGC_USE_SBRK','GGGGC_NO_THREADS','ENV_SKEW=env_malloc_sizemax=4096;env_sbrk_skew_max=4095;env_sbrk_skew_unit=1'], covers=['end','refused','aborted'], frontier=12),
   dict(name='sbrkrace', harness='c16_pools.c', defs=G+['WHICH=3','K=2','GGGGC_USE_SBRK','GGGGC_NO_THREADS','ENV_SKEW=env_malloc_sizemax=4096;env_sbrk_skew_max=4095;env_sbrk_skew_unit=1;env_brk_race=1;env_brk_racemax=3000'], covers=['end'], frontier=12),
   dict(name='sbrkbump', harness='c16_pools.c', defs=G+['WHICH=3','K=1','GGGGC_USE_SBRK','GGGGC_NO_THREADS','ENV_SKEW=env_malloc_sizemax=4096;env_sbrk_skew_max=4095;env_sbrk_skew_unit=1;env_malloc_brk=2'], covers=['end'], frontier=12),
   dict(name='sbrkall', harness='c16_pools.c', defs=G+['WHICH=3','K=2','FAILS=1','GGGGC_USE_SBRK','GGGGC_NO_THREADS','ENV_SKEW=env_malloc_sizemax=4096;env_sbrk_skew_max=4095;env_sbrk_skew_unit=1;env_malloc_brk=2;env_brk_race=2;env_brk_racemax=3000'], covers=['end'], frontier=12, tier='thorough', time=800),
   dict(name='portable', harness='c16_pools.c', defs=['GGGGC_POOL_SIZE=11','GGGGC_COLLECTOR=portablems','WHICH=0','K=4','FAILS=2','GGGGC_USE_PORTABLE_ALLOCATOR'], covers=['end','refused','aborted']),
 ]),
 'C03': dict(jobs=[
   dict(name='dense', harness='c03_dense.c', defs=G+['N=2','AGES=3'], covers=['end','live']),
   dict(name='dense3', harness='c03_dense.c', defs=G+['N=3','PROMOTE'], covers=['end','live']),
   dict(name='densejunk', harness='c03_dense.c', defs=G+['N=2','AGES=3','JUNK=9'], covers=['end','live']),
   dict(name='denseg1', harness='c03_dense.c', defs=G+['N=3','GGGGC_GENERATIONS=1','JUNK=9'], covers=['end','live']),
   dict(name='denseg3', harness='c03_dense.c', defs=G+['N=2','AGES=4','GGGGC_GENERATIONS=3'], covers=['end','live']),
   dict(name='bounded', harness='c03_bounded.c', defs=G+['R=60'], covers=['end','live']),
   dict(name='limit', harness='c03_bounded.c', defs=G+['R=60','LIMIT=2'], covers=['end','live']),
   dict(name='limitbig', harness='c03_bounded.c', defs=G+['R=30','LIMIT=2','BIG=40'], covers=['end','live']),
   dict(name='limitg1', harness='c03_bounded.c', defs=G+['R=30','LIMIT=1','BIG=40','GGGGC_GENERATIONS=1'], covers=['end','live']),
   dict(name='limitg3', harness='c03_bounded.c', defs=G+['R=60','LIMIT=3','BIG=40','GGGGC_GENERATIONS=3'], covers=['end','live']),
   dict(name='coll', harness='c03_bounded.c', defs=G+['R=6','COLL','NSYMR=2'], covers=['end','live']),
   dict(name='fin', harness='c03_bounded.c', defs=G+F+['R=60'], covers=['end','live']),
   dict(name='fit', harness='c03_fit.c', defs=G, covers=['end']),
   dict(name='fitg1', harness='c03_fit.c', defs=G+['GGGGC_GENERATIONS=1'], covers=['end']),
   dict(name='fitdrop', harness='c03_fit.c', defs=G+['DROP','LMAX=36','LIMIT=4'], covers=['end']),
   dict(name='fitdropg1', harness='c03_fit.c', defs=G+['DROP','LMAX=36','GGGGC_GENERATIONS=1'], covers=['end']),
   dict(name='fitg3', harness='c03_fit.c', defs=G+['GGGGC_GENERATIONS=3'], covers=['end']),
 ]),
}
from bounds import B
for _k, _v in CHECKS.items(): _v['bounds'] = B[_k]
