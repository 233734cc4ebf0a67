"""C27: networks with vertical and horizontal packs, identity layers and dropout behave like the network they denote (executed against an independent reference network)"""
from dsl import *
from ref_net import Tree,netunit
use_tu('pack')
P='C27'; V=['_LPV::_lpv_fprop','_LPV::_lpv_bprop']; H=['_LPH::_lph_fprop','_LPH::_lph_bprop']; I=['_LI::_li_fprop','_LI::_li_bprop']
def pk(name,covers,out,f,dp=None,cuts=lambda c,k:c.int('cut',0,k-1),**kw):
    """f(k,h,cut,l,p) -> shapes of the weight matrices, layers below the output layer"""
    def build(c,k,l):
        h=c.int('h',1,small=(1,3)); cut=cuts(c,k); p=c.choice('dp',dp) if dp else 1.0; shapes,tree,mw=(f(k,h,cut,l,p)+(0,))[:3]
        return h,cut,p,mw if p<1 else 0,shapes,lambda w,hp,clamp:Tree(tree,out,shapes,w,hp,clamp)
    netunit(P,'w_pk_'+name,covers,build,out,True,**kw)
fc=lambda i,a:('fc',i,a)
pk('v',V,'sigm_quad',lambda k,h,cut,l,p:([(h,k+1),(h+1,h+1),(l,h+2)],[('v',[fc(0,'relu'),fc(1,'softsign')])]))
pk('h',H,'quad',lambda k,h,cut,l,p:([(h,k-cut+1),(h+1,k-cut+1),(l,2*h+2)],[('h',[(fc(0,'relu'),0,k-cut),(fc(1,'softsign'),cut,k-cut)])]),rowx=False,cuts=lambda c,k:c.int('cut',0,k//2))
pk('fh',H+I,'quad',lambda k,h,cut,l,p:([(k,k+1),(h,k+1),(l,k-cut+h+1)],[fc(0,'sigm'),('h',[(('id',),cut,k-cut),(fc(1,'softsign'),0,k)])]))
D=['_dropout_base::_dropout_restoreScaling','Dropout::_dropout_apply','_LEx::fprop','_LEx::bprop']
pk('do',D,'sigm_quad',lambda k,h,cut,l,p:([(h,k+1),(h+1,h+1),(l,h+2)],[('drop',fc(0,'relu'),p),fc(1,'softsign')],h),dp=[.5,.75,.25,1.0])
pk('pa',D+['_PA_base::_pab_update_dLdA'],'sigm_quad',lambda k,h,cut,l,p:([(h+1,k+1),(h,h+2),(l,h+1)],[fc(0,'softsign'),('drop',('pa',fc(1,'relu'),.125*(cut&1),.25*(cut>>1)),p)],h),dp=[.5,.75,1.0,1.0],cuts=lambda c,k:c.int('cut',0,3),nofull=True)
def nest(k,h,cut,l,p):
    q=k-cut; return [(k,k+1),(h,k+1),(h+1,h+1),(h,q+1),(l,2*h+1+q-q//2+1)],[fc(0,'sigm'),('h',[(('v',[fc(1,'relu'),fc(2,'identity')]),0,k),(('h',[(('drop',fc(3,'softsign'),p),0,q),(('id',),q//2,q-q//2)]),cut,q)])],h
pk('n',V+H+I+D,'quad',nest,dp=[.5,.75,1.0])
O=['_LPHO::_lpho_fprop','_LPHO::_lpho_bprop','_LIG::_make_gate']; T=['_LPT::_lpt_fprop','_LPT::_lpt_bprop']
cut4=lambda c,k:c.int('cut',1,k-3)
pk('o',O,'quad',lambda k,h,cut,l,p:([(h,cut+1),(h+1,k-2-cut+1),(l,2*h+4)],[('opt',2,False,[(fc(0,'softsign'),2,cut,h),(fc(1,'relu'),2+cut,k-2-cut,h+1)])]),cuts=cut4,mink=4,rowx=False)
pk('fo',O+I,'quad',lambda k,h,cut,l,p:([(k,k+1),(h,cut+1),(l,4+h+k-2-cut+1)],[fc(0,'sigm'),('opt',2,True,[(fc(1,'softsign'),2,cut,h),(('id',),2+cut,k-2-cut,k-2-cut)])]),cuts=cut4,mink=4)
pk('f1',O,'quad',lambda k,h,cut,l,p:([(k,k+1),(h,k),(l,h+2)],[fc(0,'sigm'),('opt',1,False,[(fc(1,'softsign'),1,k-1,h)])]),cuts=lambda c,k:0,mink=2)
pk('ft',T,'quad',lambda k,h,cut,l,p:([(k*cut,k+1),(h,k+1),(l,h*cut+1)],[fc(0,'sigm'),('tile',fc(1,'softsign'),cut)]),cuts=lambda c,k:c.int('cut',1,3))
pk('t',T,'sigm_quad',lambda k,h,cut,l,p:([(h,k//cut+1),(l,h*cut+1)],[('tile',fc(0,'relu'),cut)]),cuts=lambda c,k:c.choice('cut',[q for q in range(1,k+1) if k%q==0]),rowx=False)
