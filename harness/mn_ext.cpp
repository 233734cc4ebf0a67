#include "vp_mathn.h"
// selection of rows/columns/samples, transposition, column cloning, tiling
W void w_mExtractCols(float*s,float*d,const int*ix,int sR,int dR,int sc,int dc,bool sbb,bool dbb){ M m(s,sR,sc,sbb,false,true), k(d,dR,dc,dbb,false,true); MN mn; mn.mExtractCols(m,ix,k); }
W void w_mExtractCols_st(float*s,float*d,const int*ix,int sR,int dR,int sc,int dc,bool sbb,bool dbb,bool er,int a,int b){ M m(s,sR,sc,sbb,false,true), k(d,dR,dc,dbb,false,true); MN mn; VR v(a,b); mn.mExtractCols_st(m,ix,k,er?&v:nullptr); }
W void w_mExtractCols_mt(float*s,float*d,const int*ix,int sR,int dR,int sc,int dc,bool sbb,bool dbb){ M m(s,sR,sc,sbb,false,true), k(d,dR,dc,dbb,false,true); MN mn; mn.mExtractCols_mt(m,ix,k); }
W void w_mExtractBatches_c(float*s,float*d,const int*ix,int sR,int dR,int sc,int dc,bool sbb,bool dbb){ M m(s,sR,sc,sbb,false,true), k(d,dR,dc,dbb,false,true); MN mn; mn.mExtractBatches(m,ix,k); }
//@for F in mExtractRows mExtractRows_seqWrite_mt mExtractBatches: W void w_$F(float*s,float*d,const int*ix,int sr,int dr,int c,bool sb,bool db){ M m(s,sr,c+(sb?1:0),sb), k(d,dr,c+(db?1:0),db); MN mn; mn.$F(m,ix,k); }
W void w_mExtractRows_seqWrite_st(float*s,float*d,const int*ix,int sr,int dr,int c,bool sb,bool db,bool er,ll a,ll b){ M m(s,sr,c+(sb?1:0),sb), k(d,dr,c+(db?1:0),db); MN mn; ER e(a,b); mn.mExtractRows_seqWrite_st(m,ix,k,er?&e:nullptr); }
//@for F in mExtractRowsSeq mExtractRowsSeq_mt: W void w_$F(float*s,float*d,int sr,int dr,int c,bool sb,int ofs){ M m(s,sr,c+(sb?1:0),sb), k(d,dr,c+(sb?1:0),sb); MN mn; mn.$F(m,ofs,k); }
W void w_mExtractRowsSeq_st(float*s,float*d,int sr,int dr,int c,bool sb,int ofs,bool er,ll a,ll b){ M m(s,sr,c+(sb?1:0),sb), k(d,dr,c+(sb?1:0),sb); MN mn; ER e(a,b); mn.mExtractRowsSeq_st(m,ofs,k,er?&e:nullptr); }
//@for F in mFillRowsByMask mFillRowsByMask_st mFillRowsByMask_mt mExtractRowsByMask mExtractRowsByMask_st mExtractRowsByMask_mt: W void w_$F(float*s,float*d,const float*mask,int sr,int dr,int c,bool sb,bool db){ M m(s,sr,c+(sb?1:0),sb), k(d,dr,c+(db?1:0),db); MN mn; mn.$F(m,mask,k); }
//@for F in mTranspose mTranspose_seq_read mTranspose_seq_write: W void w_$F(float*s,float*d,int sR,int sC,int dR,int dC,bool bir,bool sb,bool db,bool ib){ M m(s,sR,sC,sb,false,bir), k(d,dR,dC,db,false,!bir); MN mn; mn.$F(m,k,ib); }
W void w_mTranspose_ignore_bias(float*s,float*d,int sR,int sC,int dR,int dC,bool bir,bool sb,bool db){ M m(s,sR,sC,sb,false,bir), k(d,dR,dC,db,false,!bir); MN mn; mn.mTranspose_ignore_bias(m,k); }
//@for F in mCloneCol mCloneCol_mt: W void w_$F(float*s,float*d,int r,int c){ M m(s,r,1), k(d,r,c); MN mn; mn.$F(m,k); }
W void w_mCloneCol_st(float*s,float*d,int r,int c,int a,int b){ M m(s,r,1), k(d,r,c); MN mn; mn.mCloneCol_st(m,k,a,b); }
//@for F in mCloneCols mCloneCols_mt: W void w_$F(float*s,float*d,const int*spec,int r,int sc,int dc){ M m(s,r,sc), k(d,r,dc); MN mn; mn.$F(m,k,spec); }
W void w_mCloneCols_st(float*s,float*d,const int*spec,int r,int sc,int dc,int a,int b){ M m(s,r,sc), k(d,r,dc); MN mn; mn.mCloneCols_st(m,k,spec,a,b); }
//@for F in mTilingRoll mTilingRoll_st mTilingRoll_mt mTilingRoll_seqread_mt mTilingRoll_seqwrite_mt: W void w_$F(float*s,float*d,int m,int k,int n,bool eb){ M a(s,m,k*n+(eb?1:0),eb), b(d,k*m,n+(eb?1:0),eb); MN mn; mn.$F(a,b); }
//@for F in mTilingRoll_seqread_st mTilingRoll_seqwrite_st: W void w_$F(float*s,float*d,int m,int k,int n,bool eb,int f,int l){ M a(s,m,k*n+(eb?1:0),eb), b(d,k*m,n+(eb?1:0),eb); MN mn; mn.$F(a,b,f,l); }
//@for F in mTilingUnroll mTilingUnroll_st mTilingUnroll_mt mTilingUnroll_seqread_mt mTilingUnroll_seqwrite_mt: W void w_$F(float*s,float*d,int m,int k,int n,bool eb){ M a(s,k*m,n+(eb?1:0),eb), b(d,m,k*n+(eb?1:0),eb); MN mn; mn.$F(a,b); }
//@for F in mTilingUnroll_seqread_st mTilingUnroll_seqwrite_st: W void w_$F(float*s,float*d,int m,int k,int n,bool eb,int f,int l){ M a(s,k*m,n+(eb?1:0),eb), b(d,m,k*n+(eb?1:0),eb); MN mn; mn.$F(a,b,f,l); }
