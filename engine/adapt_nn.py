"""Extraction of the layer / gradient-application headers: names of dependent base classes that MSVC finds without qualification. The missing third-party AFRandom header is replaced by an empty generator type."""
import re
RNG='''#pragma once
#include "../_i_rng.h"
#include "../_i_threads.h"
namespace AFog{ struct CRandomSFMT0{}; }
namespace nntl{ namespace rng{ template<typename R,typename A,typename T> class AFRand_mt : public rng_helper<R,ptrdiff_t,uint32_t,AFRand_mt<R,A,T>> { public: typedef T iThreads_t; }; } }
'''
def after_open(t,rx,ins):
    """insert declarations right after the opening brace of the class whose head matches rx"""
    m=re.search(rx,t)
    if not m: return t
    i=t.index('{',m.end()); return t[:i+1]+' '+ins+' '+t[i+1:]
def u(base,names): return 'public: '+' '.join('using typename %s::%s;'%(base,n) for n in names.split())
def um(base,names): return ' '.join('using %s::%s;'%(base,n) for n in names.split())
def ad_common(t):
    t=re.sub(r'using _base_class::(interfaces_t|iMath_t|iRng_t|iThreads_t|iInspect_t|real_t|mtx_size_t|mtx_coords_t);',r'using typename _base_class::\1;',t)
    t=t.replace('::std::enable_if_t<!B, static void>','::std::enable_if_t<!B, void>')
    t=re.sub(r'static_assert\(false, "this feature[^;]*;','',t)
    I='interfaces_t iMath_t iRng_t iThreads_t iInspect_t real_t'
    B='interfaces_td<InterfacesT>'
    t=after_open(t,r'class common_nn_data\b[^;{]*',u(B,I))
    t=after_open(t,r'class _common_data_consumer\b[^;{]*',u(B,I))
    t=re.sub(r'(typedef common_nn_data<InterfacesT> _base_class;)',r'\1 protected: '+um('_base_class','m_pMath m_pRng m_pInspect m_pbNotLearningNow')+' public: using _base_class::bAllowToBlockLearning; private:',t)
    return t
def ad_la(t):
    t=re.sub(r'template <typename CommonDataT, bool c = calcOnFprop>\s*nntl_interface[^;]*;','',t)
    B='_i_loss_addendum<RealT>'
    t=after_open(t,r'class scaled_addendum : public _i_loss_addendum<RealT>',u(B,'real_t realmtx_t realmtxdef_t'))
    t=after_open(t,r'struct scaled_addendum_with_mtx4fprop<RealT, true[^{]*',u('_base_class_t','mtx_size_t').replace('_base_class_t','scaled_addendum<RealT, true, bAppendToNZGrad, bDependsOnManyElements>'))
    return t
def ad_l12(t):
    B='_impl::scaled_addendum_with_mtx4fprop<RealT, bCalcOnFProp, bAppendToNZGrad, false>'
    t=t.replace('bool c = calcOnFprop','bool c = bCalcOnFProp').replace('bool c = appendToNZGrad','bool c = bAppendToNZGrad')
    t=re.sub(r'(class L[12] : public ([^{]*)\{)',lambda m:m.group(1)+' typedef '+m.group(2).strip()+' vp_base; public: using typename vp_base::real_t; using typename vp_base::realmtx_t; using typename vp_base::realmtxdef_t; using vp_base::m_scale; using vp_base::_appendGradient; ',t)
    t=t.replace('m_Mtx','this->m_Mtx')
    return t
def ad_mix(t):
    return re.sub(r'm_opts\.(get|set)<',r'm_opts.template \1<',t)
def ad_gw(t):
    t=t.replace('using _impl::_common_data_consumer<InterfacesT>::real_t;','using typename _impl::_common_data_consumer<InterfacesT>::real_t; using typename _impl::_common_data_consumer<InterfacesT>::interfaces_t; '+um('_impl::_common_data_consumer<InterfacesT>','get_iMath get_iRng get_iInspect isLearningBlocked set_common_data clean_common_data'))
    t=t.replace('typedef _impl::common_nn_data<interfaces_t> common_data_t;','typedef _impl::common_nn_data<InterfacesT> common_data_t;',1)
    t=re.sub(r'(?<![\w.:>~])(_la_construct|ILR_init|_la_init|ILR_deinit|_la_deinit|_applyLossAddendums|ILR_apply|ILR_serialize)\(',r'this->\1(',t)
    return t
def ad_lb(t):
    t=after_open(t,r'class _layer_base \s*: public[^{]*?(?=\s*\{)','public: typedef typename InterfacesT::iMath_t::real_t real_t; using typename _impl::_common_data_consumer<InterfacesT>::interfaces_t; using typename _impl::_common_data_consumer<InterfacesT>::iMath_t; using typename _impl::_common_data_consumer<InterfacesT>::common_data_t; private:')
    t=t.replace('using _base_class_t::real_t;','').replace('template<bool c = is_layer_learnable<self_t>::value >','template<typename vpS = FinalPolymorphChild, bool c = is_layer_learnable<vpS>::value >')
    t=after_open(t,r'class _layer_base_forwarder\s*: public[^{]*?(?=\s*\{)','public: '+' '.join('using typename interfaces_td<InterfacesT>::%s;'%n for n in 'interfaces_t iMath_t iRng_t iThreads_t iInspect_t'.split())+' private:')
    i=t.find('class _layer_base_forwarder'); i=i if i>=0 else len(t); t=t[:i]+re.sub(r'(?<![\w.>])get_self\(\)','this->get_self()',t[i:])
    return t
def ad_ls(t):
    return t.replace('typedef const ::std::tuple<Layrs&...> _layers;','typedef const ::std::tuple<Layrs&...> _layers; typedef interfaces_td<typename ::std::remove_reference<typename ::std::tuple_element<0, ::std::tuple<Layrs&...>>::type>::type::interfaces_t> vp_itd; using typename vp_itd::iMath_t; using typename vp_itd::real_t;',1)
def inj(t,cls,extra_t='',extra_m=''):
    m=re.search(r'class %s\b(?![^{;]*;)'%cls,t)
    if not m: return t
    k=re.compile(r'typedef [^;]*? _base_class_t;').search(t,m.end())
    if not k: return t
    names='real_t realmtx_t realmtxdef_t '+extra_t
    t=re.sub(r'using _base_class_t::(real_t|realmtx_t|realmtxdef_t);','',t)
    k=re.compile(r'typedef [^;]*? _base_class_t;').search(t,m.end())
    ins=' public: '+' '.join('using typename _base_class_t::%s;'%n for n in names.split())+' '+' '.join('using _base_class_t::%s;'%n for n in extra_m.split())+' private: '
    return t[:k.end()]+ins+t[k.end():]
LT='iMath_t interfaces_t common_data_t ErrorCode _layer_init_data_t self_t self_ref_t'
def ad_as(t): return inj(t,'_act_stor',LT)
def ad_aw(t): return inj(t,'_act_wrap',LT)
def ad_fc(t):
    t=inj(t,'_LFC_FProp',LT+' Activation_t','bActivationForHidden bActivationForOutput')
    t=inj(t,'_LFC',LT+' Activation_t','bActivationForHidden bActivationForOutput')
    return t
def ad_out(t): return inj(t,'_layer_output',LT+' Activation_t','bActivationForHidden bActivationForOutput')
def ad_in(t): return inj(t,'_layer_input',LT)
ADAPT={'nntl/layer/_activation_storage.h':ad_as,'nntl/layer/_activation_wrapper.h':ad_aw,'nntl/layer/fully_connected.h':ad_fc,'nntl/layer/output.h':ad_out,'nntl/layer/input.h':ad_in,'nntl/layer/_layer_base.h':ad_lb,'nntl/layers.h':ad_ls,'nntl/interface/rng/afrand_mt.h':lambda t:RNG,'nntl/utils/tictoc.h':lambda t:t.replace('high_resolution_clock','steady_clock'),

 'nntl/common_nn_data.h':ad_common,'nntl/loss_addendum/_i_loss_addendum.h':ad_la,'nntl/loss_addendum/L1.h':ad_l12,'nntl/loss_addendum/L2.h':ad_l12,'nntl/utils/mixins.h':ad_mix,'nntl/grad_works/grad_works.h':ad_gw}
def ad_ev(t): return re.sub(r'(?<![\w:>.])(train_set_id|test_set_id|invalid_set_id)\b',r'DataSetsId::\1',t)
def ad_nnet(t):
    t=t.replace('"../../nntl/nntl/_supp/','"_supp/')
    B='_base_class'; return t.replace('typedef _impl::interfaces_keeper<typename LayersPack::interfaces_t> _base_class;','typedef _impl::interfaces_keeper<typename LayersPack::interfaces_t> _base_class; '+u(B,'interfaces_t iMath_t iRng_t iThreads_t iInspect_t real_t')+' '+um(B,'get_common_data get_const_common_data get_iMath get_iRng get_iThreads get_iInspect _blockLearning _unblockLearning')+' private:',1)
ADAPT.update({'nntl/nnet_evaluator.h':ad_ev,'nntl/training_observer.h':ad_ev,'nntl/nnet.h':ad_nnet})
def wrap(f):
    def g(t):
        t=re.sub(r'is_base_of<(_i_layer_fprop|_i_layer_trainable|_i_layer),',r'is_base_of<\1<real_t>,',f(t))
        return re.sub(r'(?<!typename )\b(realmtx_t|realmtxdef_t)::tag_noBias\(\)',r'typename \1::tag_noBias()',t)
    return g
for k in('nntl/layer/fully_connected.h','nntl/layer/output.h','nntl/layer/input.h'): ADAPT[k]=wrap(ADAPT[k])
def ad_wk(t):
    return after_open(t,r'class Workers\s*: public _i_threads<RealT, RangeT>',' '.join('public: using typename _i_threads<RealT, RangeT>::%s;'%n for n in 'range_t par_range_t reduce_data_t real_t'.split())+' template<typename T_> using converter_reduce_data_t=typename _i_threads<RealT, RangeT>::template converter_reduce_data_t<T_>; private: ')
def ad_fwd(t): return re.sub(r'(?<![\w.>])store_(?=[),])','this->store_',re.sub(r'(?<![\w.>])stub_(?= = \[)','this->stub_',t))
ADAPT.update({'nntl/interface/threads/workers.h':ad_wk,'nntl/utils/forwarder.h':ad_fwd})
def ad_pack(t):
    for c in'_LPV _LPH_base _LPH _LPT _LI _LIG LPHFP'.split(): t=inj(t,c,'ErrorCode self_t self_ref_t')
    t=inj(t,'_LPHO','ErrorCode self_t self_ref_t first_layer_t _layer_init_data_t mtx_size_t _pre_LPH_base_class_t','phl_count bAssumeFPropOnly')
    # the tiled layer's first assertion uses a name of the base class before the base class is named
    return re.sub(r'(class _LPT : public[^{]*\{)',r'\1 typedef typename LayerT::real_t vp_real_t;',t).replace('is_base_of<_i_layer<real_t>, LayerT>','is_base_of<_i_layer<vp_real_t>, LayerT>')
for k in 'pack_vertical pack_horizontal _lph_base _pack_ pack_horizontal_optional pack_tile identity extender'.split(): ADAPT['nntl/layer/%s.h'%k]=wrap(ad_pack)
def ad_do(t):
    t=after_open(t,r'class _dropout_base : public _impl::_No_Dropout_at_All<RealT>','public: using typename _impl::_No_Dropout_at_All<RealT>::real_t; using typename _impl::_No_Dropout_at_All<RealT>::realmtx_t;')
    t=after_open(t,r'class NoDropout : public _impl::_No_Dropout_at_All<RealT>','public: using typename _impl::_No_Dropout_at_All<RealT>::real_t; using typename _impl::_No_Dropout_at_All<RealT>::realmtx_t;')
    t=re.sub(r'(class Dropout : public _impl::_dropout_base<RealT> \{\s*private:\s*typedef [^;]*;)',r'\1 public: using typename _base_class_t::real_t; using typename _base_class_t::realmtx_t; using _base_class_t::bDropout; private:',t)
    return t.replace('using _base_class_t::real_t;','using typename _base_class_t::real_t; using typename _base_class_t::realmtx_t;')
def ad_dc(t): return t.replace('bool c = calcOnFprop','bool c = bCalcOnFProp')
for k in'_base dropout alpha_dropout'.split(): ADAPT['nntl/dropout/%s.h'%k]=ad_do
ADAPT['nntl/loss_addendum/DeCov.h']=ad_dc
ad_px=ADAPT['nntl/layer/extender.h']
ADAPT['nntl/layer/extender.h']=lambda t:re.sub(r'(?<![\w:])mtx_size_t\(','typename _base_class_t::mtx_size_t(',ad_px(t))
