// C09: matrix elements, rows, columns, iteration and swap agree
#include "args.h"
template<class T,std::size_t C,std::size_t R> using MM=dsga::basic_matrix<T,C,R>;
template<class T,std::size_t C,std::size_t R> T at(const MM<T,C,R>&m,std::size_t i){ return m.columns[i/R].base.store[i%R]; }
template<class T,std::size_t C,std::size_t R> void ism(const MM<T,C,R>&m,const Arr<T,C*R>&w,const char*l){ bool ok=true; for(std::size_t i=0;i<C*R;i++) ok=v_and(ok,v_same<T>(at<T,C,R>(m,i),w[i])); v_ensures(ok,l); }
template<class T,std::size_t C,std::size_t R> void init(MM<T,C,R>&m,const Arr<T,C*R>&a){ v_for<C*R>([&](auto i){ m.columns[i/R].base.store[i%R]=a[i]; }); }
// element access at arbitrary (symbolic) indices of several index types
template<class T,std::size_t C,std::size_t R,class I> void elem(){ auto a=v_arr<T,C*R>(); I c=v_in<I>(),r=v_in<I>(); T x=v_in<T>(); v_requires(v_and(v_and(c>=I(0),c<I(C)),v_and(r>=I(0),r<I(R)))); MM<T,C,R> m; init(m,a); const auto&k=m; std::size_t at_=(std::size_t)c*R+(std::size_t)r;
  v_ensures(v_and(v_same<T>(m[c][r],a[at_]),v_same<T>(k[c][r],a[at_])),"m[c][r] reads column c, row r"); v_ensures(v_and(&m[c]==m.data()+c,&k[c]==k.data()+c),"m[c] designates column c"); m[c][r]=x; bool ok=true; for(std::size_t i=0;i<C*R;i++) ok=v_and(ok,v_same<T>(at<T,C,R>(m,i),i==at_?x:a[i])); v_ensures(ok,"writing m[c][r] changes that element only"); }
template<class T,std::size_t C,std::size_t R,class I> void row(){ auto a=v_arr<T,C*R>(); I r=v_in<I>(); v_requires(v_and(r>=I(0),r<I(R))); MM<T,C,R> m; init(m,a); auto w=m.row(r); static_assert(std::is_same_v<decltype(w),VV<T,C>>); bool ok=true; for(std::size_t c=0;c<C;c++) ok=v_and(ok,v_same<T>(w[c],a[c*R+(std::size_t)r])); v_ensures(ok,"row(r) is the r-th element of each column"); ism<T,C,R>(m,a,"reading a row modifies nothing"); w[0]=T(1); ism<T,C,R>(m,a,"a row is an independent value"); }
template<class T,std::size_t C,std::size_t R,class I> void col(){ auto a=v_arr<T,C*R>(); auto b=v_arr<T,R>(); I c=v_in<I>(); v_requires(v_and(c>=I(0),c<I(C))); MM<T,C,R> m; init(m,a); VV<T,R> v; v_for<R>([&](auto i){ v[i]=b[i]; }); m[c]=v; bool ok=true; for(std::size_t i=0;i<C*R;i++) ok=v_and(ok,v_same<T>(at<T,C,R>(m,i),i/R==(std::size_t)c?b[i%R]:a[i])); v_ensures(ok,"assigning a column changes that column only"); }
template<class T,std::size_t C,std::size_t R> void shape(){ auto a=v_arr<T,C*R>(); MM<T,C,R> m; init(m,a); v_ensures(v_and(v_and(m.length()==(int)C,m.column_length()==(int)R),v_and(m.size()==C,m.column_size()==R)),"size functions report the shape"); v_ensures(MM<T,C,R>::ComponentCount==C*R&&std::tuple_size_v<MM<T,C,R>> ==C&&std::is_same_v<std::tuple_element_t<0,MM<T,C,R>>,VV<T,R>>,"static shape"); v_ensures(v_and(std::size(m)==C,m[0].size()==R),"columns have the row count");
  auto arr=dsga::to_array(m); v_ensures(arr.size()==C*R,"flat array size"); bool ok=true; for(std::size_t i=0;i<C*R;i++) ok=v_and(ok,v_same<T>(arr[i],a[i])); v_ensures(ok,"flat array is column-major"); T e[C*R]; for(std::size_t i=0;i<C*R;i++) e[i]=a[i]; auto n=dsga::to_matrix<C,R>(arr); ism<T,C,R>(n,a,"from std::array"); auto o=dsga::to_matrix<C,R>(e); ism<T,C,R>(o,a,"from C array"); ism<T,C,R>(m,a,"operands unmodified"); }
template<class T,std::size_t C,std::size_t R> void iter(){ auto a=v_arr<T,C*R>(); auto b=v_arr<T,C*R>(); MM<T,C,R> m; init(m,a); const auto&k=m; bool ok=true; std::size_t c=0; for(auto&v:m){ for(std::size_t r=0;r<R;r++) ok=v_and(ok,v_same<T>(v[r],a[c*R+r])); c++; } ok=v_and(ok,c==C); v_ensures(ok,"range-for visits the columns in order"); ok=true; c=0; for(auto&v:k){ for(std::size_t r=0;r<R;r++) ok=v_and(ok,v_same<T>(v[r],a[c*R+r])); c++; } v_ensures(v_and(ok,c==C),"const range-for"); ok=true; c=0; for(auto i=k.rbegin();i!=k.rend();++i){ for(std::size_t r=0;r<R;r++) ok=v_and(ok,v_same<T>((*i)[r],a[(C-1-c)*R+r])); c++; } v_ensures(v_and(ok,c==C),"reverse iteration visits them backwards"); v_ensures(v_and(m.end()-m.begin()==(std::ptrdiff_t)C,k.cend()-k.cbegin()==(std::ptrdiff_t)C),"iterator range length");
  v_for<C>([&](auto i){ auto&g=dsga::get<(int)i.value>(m); const auto&h=dsga::get<(int)i.value>(k); v_ensures(v_and(&g==m.data()+i.value,&h==k.data()+i.value),"get<c> designates column c"); });
  c=0; for(auto&v:m){ for(std::size_t r=0;r<R;r++) v[r]=b[c*R+r]; c++; } ism<T,C,R>(m,b,"writing through iteration writes the elements in order"); 
  if constexpr(C==2){ auto&[p,q]=m; v_ensures(v_and(&p==&m[0],&q==&m[1]),"structured binding"); } else if constexpr(C==3){ auto&[p,q,s]=m; v_ensures(v_and(v_and(&p==&m[0],&q==&m[1]),&s==&m[2]),"structured binding"); } else { auto&[p,q,s,t]=m; v_ensures(v_and(v_and(&p==&m[0],&q==&m[1]),v_and(&s==&m[2],&t==&m[3])),"structured binding"); } }
template<class T,std::size_t C,std::size_t R> void swp(){ auto a=v_arr<T,C*R>(),b=v_arr<T,C*R>(); MM<T,C,R> x,y; init(x,a); init(y,b); x.swap(y); ism<T,C,R>(x,b,"swap: left"); ism<T,C,R>(y,a,"swap: right"); using dsga::swap; swap(x,y); ism<T,C,R>(x,a,"free swap: left"); ism<T,C,R>(y,b,"free swap: right"); x.swap(x); swap(y,y); ism<T,C,R>(x,a,"self swap"); ism<T,C,R>(y,b,"self swap"); std::swap(x,y); ism<T,C,R>(x,b,"std::swap: left"); ism<T,C,R>(y,a,"std::swap: right"); std::ranges::swap(x,y); ism<T,C,R>(x,a,"ranges swap"); ism<T,C,R>(y,b,"ranges swap"); }
#define SH1(M,T,...) M(T,2,2,##__VA_ARGS__) M(T,2,3,##__VA_ARGS__) M(T,2,4,##__VA_ARGS__) M(T,3,2,##__VA_ARGS__) M(T,3,3,##__VA_ARGS__) M(T,3,4,##__VA_ARGS__) M(T,4,2,##__VA_ARGS__) M(T,4,3,##__VA_ARGS__) M(T,4,4,##__VA_ARGS__)
#define IX(T,C,R,I) E("element " #T " " #C "x" #R " " #I,elem<T,C,R,I>) E("row " #T " " #C "x" #R " " #I,row<T,C,R,I>) E("column " #T " " #C "x" #R " " #I,col<T,C,R,I>)
#define NX(T,C,R) E("shape " #T " " #C "x" #R,shape<T,C,R>) E("iteration " #T " " #C "x" #R,iter<T,C,R>) E("swap " #T " " #C "x" #R,swp<T,C,R>)
#ifndef PART
#define PART 0
#endif
extern "C" const v_entry v_table[] = {
#if PART==0
 SH1(IX,float,int) SH1(IX,double,int)
#elif PART==1
 SH1(IX,float,unsigned) SH1(IX,double,ull) SH1(IX,float,ll)
#elif PART==2
 SH1(NX,float) SH1(NX,double)
#endif
 V_END };
