"""C24: whole networks: training follows backpropagation, reports and inference agree with the weights (executed against an independent reference network)"""
from dsl import *
from ref_net import Net,netunit
use_tu('net')
P='C24'; NN='nnet::'; LP='layers::'; FC='_LFC::'; OL='_layer_output::'
def net(name,acts,out,binary):
    def build(c,k,l):
        h=c.int('h',1,small=(1,3)); sz=[k]+([h] if len(acts)>0 else [])+([h+1] if len(acts)>1 else [])+[l]
        return h,0,1.0,0,[(b,a+1) for a,b in zip(sz,sz[1:])],lambda w,hp,clamp:Net(acts,out,sz,w,hp,clamp)
    netunit(P,'w_net_'+name,[NN+x for x in('train','calcLossAndReport','fprop','init4fixedBatchFprop','doFixedBatchFprop')]+[LP+'fprop',LP+'bprop',OL+'_outp_bprop']+([FC+'_lfc_bprop'] if acts else [])+['_LFC_FProp::_lfc_fprop'],build,out,binary)
net('quad',[],'quad',True); net('softmax',[],'softmax',False); net('relu_xent',['relu'],'xent',True); net('softsign_quad',['softsign'],'sigm_quad',False); net('identity_softmax',['identity'],'softmax',False)
net('sigm_elu_softmax',['sigm','elu'],'softmax',False); net('leaky_softsign_quad',['leaky','softsign'],'quad',True)
