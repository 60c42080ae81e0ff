// Stand-alone demonstration program. usage: demo MODE [COUNT [SEED]]
// Uses only the public interface of the library; exits 1 when the behaviour is wrong.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <random>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include <memory_resource>
#include <sstream>
#include <poly_ops/poly_ops.hpp>
#include <poly_ops/polydraw.hpp>
#include <dlfcn.h>
using namespace poly_ops;
/* libstdc++ 13's pool resource drops the exception when growing its list of chunks
fails and then crashes, so only the first allocation it makes per call is failed. */
static thread_local int pool_depth=0,pool_allocs=0;
void *std::pmr::unsynchronized_pool_resource::do_allocate(std::size_t b,std::size_t a){
  using fn=void*(*)(void*,std::size_t,std::size_t);static fn real=reinterpret_cast<fn>(dlsym(RTLD_NEXT,"_ZNSt3pmr28unsynchronized_pool_resource11do_allocateEmm"));
  if(pool_depth++==0)pool_allocs=0;struct G{~G(){--pool_depth;}}g;return real(this,b,a);}
using i64 = long long; using i128 = __int128;
using C = std::int32_t; using P = point_t<C>; using Loop = std::vector<P>; using Loops = std::vector<Loop>;
struct R { unsigned long long s; R(unsigned long long x):s(x*0x9e3779b97f4a7c15ull+1){} unsigned long long n(){unsigned long long z=(s+=0x9e3779b97f4a7c15ull);z=(z^(z>>30))*0xbf58476d1ce4e5b9ull;z=(z^(z>>27))*0x94d049bb133111ebull;return z^(z>>31);} int b(int k){return int(n()%(unsigned)k);} };
static int fails=0;
static std::string desc(const Loops&s,const Loops&c){std::ostringstream o;auto f=[&](const Loops&l){for(auto&x:l){o<<" [";for(auto&p:x)o<<" "<<p.x()<<","<<p.y();o<<"]";}};o<<"subject";f(s);o<<" clip";f(c);return o.str();}
static void fail(const std::string&w){ if(fails++<3) std::printf("WRONG: %s\n",w.c_str()); }
static int side(P a,P b,i64 x,i64 y,int k){ // sign of cross of (b-a) and (p/k-a)
  i128 v=(i128)(b.x()-a.x())*(y-(i64)a.y()*k)-(i128)(b.y()-a.y())*(x-(i64)a.x()*k); return v>0?1:v<0?-1:0; }
// winding number around (x,y)/k; positive for the orientation the library calls clockwise
static int winding(const Loop&l,i64 x,i64 y,int k){ int w=0; for(size_t i=0;i<l.size();++i){P a=l[i],b=l[(i+1)%l.size()]; i64 ay=(i64)a.y()*k,by=(i64)b.y()*k;
   if(ay<=y&&by>y){ if(side(a,b,x,y,k)>0)++w; } else if(ay>y&&by<=y){ if(side(a,b,x,y,k)<0)--w; } } return w; }
static int winding(const Loops&l,i64 x,i64 y,int k){int w=0;for(auto&a:l)w+=winding(a,x,y,k);return w;}
static double dist(P a,P b,double x,double y){double dx=b.x()-a.x(),dy=b.y()-a.y(),px=x-a.x(),py=y-a.y(),L=dx*dx+dy*dy;double t=L>0?(px*dx+py*dy)/L:0;t=t<0?0:t>1?1:t;return std::hypot(px-t*dx,py-t*dy);}
static double dist(const Loops&l,double x,double y){double d=1e300;for(auto&a:l)for(size_t i=0;i<a.size();++i)d=std::min(d,dist(a[i],a[(i+1)%a.size()],x,y));return d;}
static Loop shape(R&r,int G,int unit){ // coordinates are multiples of unit
  Loop l; int kind=r.b(6);
  if(kind==0){int x=r.b(G),y=r.b(G),w=1+r.b(G-1),h=1+r.b(G-1);l={{x,y},{x+w,y},{x+w,y+h},{x,y+h}};}
  else if(kind==1){int x=r.b(G),y=r.b(G),w=1+r.b(G);l={{x,y-w},{x+w,y},{x,y+w},{x-w,y}};}
  else if(kind==2){int n=3+r.b(6);int x=r.b(G),y=r.b(G);for(int i=0;i<n;++i){l.push_back({x,y});if(i&1)x=r.b(G);else y=r.b(G);}}
  else {int n=3+r.b(5);for(int i=0;i<n;++i)l.push_back({r.b(G),r.b(G)});}
  if(r.b(2))std::reverse(l.begin(),l.end());
  for(auto&p:l)p={p.x()*unit,p.y()*unit};
  return l; }
static Loops shapes(R&r,int G,int unit,int mx){Loops v;int n=1+r.b(mx);for(int i=0;i<n;++i){ if(i&&r.b(5)==0){v.push_back(v[r.b((int)v.size())]); if(r.b(2))std::reverse(v.back().begin(),v.back().end());} else v.push_back(shape(r,G,unit));}return v;}
static bool want(bool_op op,int ws,int wc){switch(op){case bool_op::union_:return ws+wc>0;case bool_op::intersection:return ws>0&&wc>0;case bool_op::xor_:return (ws>0)!=(wc>0);case bool_op::difference:return ws>0&&wc<=0;case bool_op::normalize:return (ws+wc)&1;}return false;}
static const bool_op OPS[]={bool_op::union_,bool_op::intersection,bool_op::xor_,bool_op::difference,bool_op::normalize};
template<class Rg> static Loops copy(Rg&&r){Loops o;for(auto&&l:r){Loop x;for(auto&&p:l)x.push_back(P(p));o.push_back(x);}return o;}
static bool crosses(P a,P b,P c,P d){ // cross properly, or one passes through the inside of another's end or overlaps partly
  auto s=[](P u,P v,P w){return side(u,v,w.x(),w.y(),1);};
  auto same=[](P u,P v){return u==v;};
  int d1=s(a,b,c),d2=s(a,b,d),d3=s(c,d,a),d4=s(c,d,b);
  if(d1*d2<0&&d3*d4<0)return true;
  auto in=[&](P u,P v,P w){ if(s(u,v,w)||same(u,w)||same(v,w))return false; return (i64)(w.x()-u.x())*(w.x()-v.x())+(i64)(w.y()-u.y())*(w.y()-v.y())<0;};
  return in(a,b,c)||in(a,b,d)||in(c,d,a)||in(c,d,b);}
static std::string crossing(const Loops&l){std::vector<std::pair<P,P>> s;for(auto&a:l)for(size_t i=0;i<a.size();++i)s.push_back({a[i],a[(i+1)%a.size()]});
  for(auto&x:s)if(x.first==x.second)return "zero-length line";
  for(size_t i=0;i<s.size();++i)for(size_t j=0;j<i;++j)if(crosses(s[i].first,s[i].second,s[j].first,s[j].second))return "output lines cross";return "";}
static std::string region(bool_op op,const Loops&s,const Loops&c,const Loops&out,double T,int lo,int hi,int stepn,R&r){
  for(int i=0;i<stepn;++i){ i64 x=lo*3+r.b((hi-lo)*3),y=lo*3+r.b((hi-lo)*3); // thirds
    if(dist(s,x/3.0,y/3.0)<=T||dist(c,x/3.0,y/3.0)<=T)continue;
    int w=winding(out,x,y,3); bool e=want(op,winding(s,x,y,3),winding(c,x,y,3));
    if(w!=(e?1:0)){std::ostringstream o;o<<"winding number "<<w<<" where "<<e<<" is expected at "<<x/3.0<<","<<y/3.0;return o.str();}}
  return "";}
// ---- modes
static void m_region(int n,int seed,bool cross){for(int k=0;k<n;++k){R r((unsigned long long)seed*1000003+k);int G=3+r.b(8),u=cross?1+r.b(3)*r.b(40):128;Loops s=shapes(r,G,u,4),c=r.b(4)?shapes(r,G,u,3):Loops{};bool_op op=OPS[r.b(5)];
    Loops o=copy(boolean_op<false,C,unsigned>(s,c,op)); std::string e; if(cross)e=crossing(o); else e=region(op,s,c,o,12,-G*u,2*G*u,60,r);
    if(e.size())fail(e+", op "+std::to_string((int)op)+" "+desc(s,c));}}
static i64 area2(const Loop&l){i64 a=0;for(size_t i=0;i<l.size();++i){P p=l[i],q=l[(i+1)%l.size()];a+=(i64)p.x()*q.y()-(i64)q.x()*p.y();}return a;}
template<class Rg> static void walk(Rg&&r,int depth,std::vector<std::tuple<Loop,int,int>>&o,int parent){for(auto&&l:r){Loop x;for(auto&&p:l)x.push_back(P(p));int me=(int)o.size();if((size_t)l.size()!=x.size())fail("size()");o.push_back({x,depth,parent});walk(l.inner_loops(),depth+1,o,me);}}
static void m_hier(int n,int seed){for(int k=0;k<n;++k){R r((unsigned long long)seed*1000003+k);int G=3+r.b(8),u=64;Loops s=shapes(r,G,u,5),c=r.b(3)?shapes(r,G,u,3):Loops{};bool_op op=OPS[r.b(5)];
    Loops f=copy(boolean_op<false,C,unsigned>(s,c,op));auto t=boolean_op<true,C,unsigned>(s,c,op);std::vector<std::tuple<Loop,int,int>> o;walk(t,0,o,-1);
    std::string e; {i64 x=0,y=0;for(auto&l:f)x+=area2(l);for(auto&l:o)y+=area2(std::get<0>(l));if(x!=y)e="hierarchy and flat output enclose different areas";}
    std::vector<std::pair<P,P>> seg;for(auto&[l,d,p]:o)for(size_t i=0;i<l.size();++i){P a=l[i],b=l[(i+1)%l.size()];if(point_less{}(b,a))std::swap(a,b);seg.push_back({a,b});}
    bool coin=false;for(size_t i=0;i<seg.size();++i)for(size_t j=0;j<i;++j)if(seg[i]==seg[j])coin=true;
    if(!coin)for(auto&[l,d,p]:o){i64 a=area2(l); if((d%2==0)!=(a>0))e="wrong orientation for its depth";
       // a point just inside this loop: depth = number of other loops around it
       int around=0;bool inpar=p<0;for(auto&[l2,d2,p2]:o)if(&l2!=&l){
         // count by an edge midpoint in doubled coordinates nudged nowhere: lines don't coincide, but midpoints may lie on no other line
         P q=l[0],z=l[1];i64 mx=(i64)q.x()+z.x(),my=(i64)q.y()+z.y();int w=winding(l2,mx,my,2);if(w){++around;if(p>=0&&&l2==&std::get<0>(o[p]))inpar=true;}}
       if(around!=d)e="nesting depth differs from the number of surrounding loops"; else if(!inpar)e="a child isn't inside its parent";}
    if(e.size())fail(e+", op "+std::to_string((int)op)+" "+desc(s,c));}}
static void m_set(int n,int seed){using A=std::pmr::polymorphic_allocator<int>;struct Res:std::pmr::memory_resource{std::map<void*,size_t>m;bool bad=false;void*do_allocate(size_t b,size_t a)override{(void)a;char*p=(char*)std::malloc(b+32);std::memset(p+b,0x5a,32);m[p]=b;return p;}void do_deallocate(void*p,size_t b,size_t)override{auto i=m.find(p);if(i==m.end()||i->second!=b){bad=true;return;}for(int k=0;k<32;++k)if(((char*)p)[b+k]!=0x5a)bad=true;m.erase(i);std::free(p);}bool do_is_equal(const memory_resource&o)const noexcept override{return this==&o;}};
  for(int k=0;k<n;++k){R r((unsigned long long)seed*1000003+k);Res res;A al(&res);{std::vector<detail::mini_flat_set<int,A>> v(4);std::vector<std::set<int>> ref(4);int ops=3+r.b(20),D=3+r.b(30);
    for(int j=0;j<ops;++j){int a=r.b(4),b=r.b(4);switch(r.b(4)){case 0:{int x=r.b(D);auto q=v[a].insert(al,x);bool ins=ref[a].insert(x).second;if(q.second!=ins||*q.first!=x)fail("insert result");break;}
       case 1:{std::vector<int> x;int m=r.b(6);while(m--)x.push_back(r.b(D));v[a].insert(al,x.begin(),x.end());ref[a].insert(x.begin(),x.end());break;}
       case 2:if(a!=b){v[a].merge(al,v[b]);ref[a].insert(ref[b].begin(),ref[b].end());ref[b]=std::set<int>(v[b].begin(),v[b].end());}break;
       case 3:{std::vector<int> x;int m=1+r.b(3);while(m--)x.push_back(r.b(D));std::set<int>t(x.begin(),x.end());detail::mini_flat_set<int,A> tmp;tmp.insert(al,x.begin(),x.end());v[a].assign(al,tmp);tmp.destroy(al);ref[a]=t;break;}}
       for(int i=0;i<4;++i)if(!std::equal(v[i].begin(),v[i].end(),ref[i].begin(),ref[i].end())){fail("set contents differ from std::set, seed "+std::to_string(k));break;}}
    for(auto&x:v)x.destroy(al);}
   if(res.bad||!res.m.empty())fail("blocks not returned as they were handed out");}}
static void m_origin(int n,int seed){struct Log:i_point_tracker<unsigned>{std::vector<std::set<unsigned>>v;void point_added(unsigned o)override{v.push_back({o});}void new_point_between(unsigned a,unsigned b)override{if(a>=v.size()||b>=v.size())fail("new_point_between mentions a point that does not exist");v.push_back({});}void point_merge(unsigned f,unsigned t)override{if(f>=v.size()||t>=v.size()){fail("merge of a point that does not exist");return;}v[t].insert(v[f].begin(),v[f].end());}void reset()override{v.clear();}};
  for(int k=0;k<n;++k){R r((unsigned long long)seed*1000003+k);int G=4+r.b(10),u=1+r.b(2)*63;Loops s=shapes(r,G,u,5);for(auto&l:s)if(r.b(2)&&!l.empty()){size_t i=r.b((int)l.size());l.insert(l.begin()+i,r.b(4)+1,l[i]);}
   unsigned total=0;for(auto&l:s)total+=l.size();bool_op op=r.b(2)?bool_op::union_:bool_op::normalize;Log log;{clipper<C,unsigned> n1;n1.add_loops(s,bool_set::subject,&log);struct T{Log*p;i_point_tracker<unsigned>*callbacks(){return p;}point_t<C> get_value(unsigned,const point_t<C>&q)const{return q;}void reset(){p->reset();}};
   T tt{&log};n1.execute<false>(op,tt);}
   origin_tracked_clipper<C,unsigned> c;c.add_loops(s,bool_set::subject);auto o=c.execute<false>(op);size_t li=0;
   for(auto&&l:o){auto it=l.begin();for(;it!=l.end();++it){auto v=*it;unsigned i=it.index();std::vector<unsigned> got(v.original_points.begin(),v.original_points.end());
      if(i>=log.v.size()||!std::equal(got.begin(),got.end(),log.v[i].begin(),log.v[i].end()))fail("origins differ from the merge history "+desc(s,{}));
      for(unsigned x:got)if(x>=total)fail("origin outside of the input");
      bool vertex=false,listed=false;unsigned q=0;for(auto&sl:s)for(auto&pp:sl){if(pp==v.p){vertex=true;}for(unsigned x:got)if(x==q&&pp==v.p)listed=true;++q;}
      (void)vertex;(void)listed;}
     ++li;}}}
static void m_offorigin(int n,int seed){for(int k=0;k<n;++k){R r((unsigned long long)seed*1000003+k);int x0=r.b(500),y0=r.b(500),w=300+r.b(500),h=300+r.b(500);Loop l{{x0,y0},{x0+w,y0},{x0+w,y0+h},{x0,y0+h}};Loop in;std::vector<int> who;int extra=0;for(int i=0;i<4;++i){int rep=1+(r.b(3)==0?r.b(3):0);while(rep--){in.push_back(l[i]);who.push_back(i);++extra;}}
   int m=20+r.b(100);origin_tracked_clipper<C,unsigned> c;add_offset(c,in,bool_set::subject,m,8,true);auto o=c.execute<false>(bool_op::union_);
   for(auto&&lp:o)for(auto&&v:lp){P p=v.p;int cx=p.x()<x0+w/2?0:1,cy=p.y()<y0+h/2?0:1;int corner=cy?(cx?2:3):(cx?1:0);if(v.original_points.empty())fail("no origin for an offset point");for(unsigned q:v.original_points){if(q>=who.size())fail("origin outside of the input");else if(who[q]!=corner)fail("offset point reports the wrong corner");}}}}
static void m_offset(int n,int seed){for(int k=0;k<n;++k){R r((unsigned long long)seed*1000003+k);Loops in;int cx=2000,cy=2000;int kind=r.b(3);double a0=r.b(100)/10.0;int nn=3+r.b(9);int rad=200+r.b(900);Loop l;
   if(kind==0){for(int i=0;i<nn;++i)l.push_back({(C)std::lround(cx+rad*std::cos(a0+i*6.2831853/nn)),(C)std::lround(cy+rad*std::sin(a0+i*6.2831853/nn))});}
   else if(kind==1){for(int i=0;i<2*nn;++i){double q=i&1?rad:rad*0.5;l.push_back({(C)std::lround(cx+q*std::cos(a0+i*3.14159265/nn)),(C)std::lround(cy+q*std::sin(a0+i*3.14159265/nn))});}}
   else {int w=100+r.b(900),h=100+r.b(900),t=20+r.b(60);l={{cx,cy},{cx+w,cy},{cx+w,cy+t},{cx+t,cy+t},{cx+t,cy+h},{cx,cy+h}};}
   if(area2(l)<0)std::reverse(l.begin(),l.end());in.push_back(l);int m=(r.b(2)?1:-1)*(5+r.b(300)),st=2+r.b(40);double arc=std::abs(m)*(1-std::cos(std::min(3.14159265/2,(double)st/std::abs(m))));
   Loops o=copy(offset<false,C,unsigned>(in,m,st));
   for(int j=0;j<80;++j){i64 x=3*(cx-1600+r.b(3600)),y=3*(cy-1600+r.b(3600));if(r.b(2)){P p=l[r.b((int)l.size())];x=3*(p.x()-2*std::abs(m)+r.b(4*std::abs(m)+1));y=3*(p.y()-2*std::abs(m)+r.b(4*std::abs(m)+1));}double d=dist(in,x/3.0,y/3.0);bool inside=winding(in,x,y,3)>0;int w=winding(o,x,y,3);int e=-1;
     if(m>0){if(inside||d<m-arc-9)e=1;else if(d>m+9)e=0;}else{if(!inside||d<-m-9)e=0;else if(d>-m+arc+9)e=1;}
     if(e>=0&&w!=e&&dist(o,x/3.0,y/3.0)>9){fail("offset by "+std::to_string(m)+" step "+std::to_string(st)+": winding "+std::to_string(w)+" where "+std::to_string(e)+" expected at distance "+std::to_string(d)+" "+desc(in,{}));break;}}}}
static void m_raster(int n,int seed){using namespace draw;for(int k=0;k<n;++k){R r((unsigned long long)seed*1000003+k);int W=8+r.b(40),H=8+r.b(40),G=10+r.b(40);Loops s=shapes(r,G,1,5);rasterizer<C> ra;
   for(int rep=0;rep<2;++rep){ if(rep&&r.b(2)){s=shapes(r,G,1,3);} ra.add_loops(s);std::vector<std::vector<long>> img(H,std::vector<long>(W,0));scan_line sc;auto st=ra.scan_lines(W,H);int ly=-1;
   while(st(ra,sc)){if((int)sc.y<ly||sc.y>=(unsigned)H||sc.x2>=(unsigned)W||sc.x1>sc.x2){fail("span out of order or bounds");break;}ly=sc.y;for(unsigned x=sc.x1;x<=sc.x2;++x)img[sc.y][x]=sc.winding;}
   bool bad=false;for(int y=0;y<H&&!bad;++y){std::vector<char> edge(W,0);for(auto&l:s)for(size_t i=0;i<l.size();++i){P a=l[i],b=l[(i+1)%l.size()];if(a.y()>b.y())std::swap(a,b);if(y<a.y()||y>b.y())continue;double xa,xb;if(a.y()==b.y()){xa=a.x();xb=b.x();}else{double q=a.x()+(double)(b.x()-a.x())*(y-a.y())/(b.y()-a.y());xa=xb=q;}if(xa>xb)std::swap(xa,xb);int lo=std::max(0,(int)std::floor(xa)-1),hi=std::min(W-1,(int)std::ceil(xb)+1);if(xb<0)lo=hi=0;if(xa>W-1)lo=hi=W-1;for(int x=lo;x<=hi;++x)edge[x]=1;}
     for(int x=0;x<W;++x)if(!edge[x]){long w=0;for(auto&l:s)for(size_t i=0;i<l.size();++i){P a=l[i],b=l[(i+1)%l.size()];bool up=a.y()>b.y();if(up)std::swap(a,b);if(y<a.y()||y>=b.y())continue;double q=a.x()+(double)(b.x()-a.x())*(y-a.y())/(b.y()-a.y());if(q>x)w+=up?-1:1;}if(w!=img[y][x]&&w!=-img[y][x]){fail("winding "+std::to_string(img[y][x])+" instead of +-"+std::to_string(w)+" in row "+std::to_string(y)+" "+desc(s,{}));bad=true;break;}}}
   }}}
static void m_fill(int n,int seed){using namespace draw;for(int k=0;k<n;++k){R r((unsigned long long)seed*1000003+k);int W=20+r.b(30),H=20+r.b(30);Loops s=shapes(r,20+r.b(20),1,6);std::vector<std::tuple<unsigned,unsigned,unsigned,long>> all;{rasterizer<C> ra;ra.add_loops(s);auto st=ra.scan_lines(W,H);scan_line sc;while(st(ra,sc))all.push_back({sc.x1,sc.x2,sc.y,sc.winding});}
   for(auto fr:{fill_rule_t::non_zero,fill_rule_t::even_odd,fill_rule_t::positive,fill_rule_t::negative}){std::vector<std::tuple<unsigned,unsigned,unsigned>> got,exp;rasterizer<C> ra;ra.add_loops(s);ra.draw(W,H,[&](unsigned a,unsigned b,unsigned y,auto&&...){got.push_back({a,b,y});},fr);
     for(auto&[a,b,y,w]:all){bool f=fr==fill_rule_t::non_zero?w!=0:fr==fill_rule_t::even_odd?(w&1):fr==fill_rule_t::positive?w>0:w<0;if(f)exp.push_back({a,b,y});}
     if(got!=exp)fail("fill rule "+std::to_string((int)fr)+" draws other spans than those whose winding satisfies it");}}}
struct Fail:std::pmr::memory_resource{long left=-1,outstanding=0,count=0;bool bad=false;std::map<void*,std::pair<size_t,size_t>>m;void*do_allocate(size_t b,size_t a)override{if(pool_depth&&pool_allocs++>0){void*p=::operator new(b,std::align_val_t(a));m[p]={b,a};++outstanding;return p;}++count;if(left==0)throw std::bad_alloc();if(left>0)--left;void*p=::operator new(b,std::align_val_t(a));m[p]={b,a};++outstanding;return p;}void do_deallocate(void*p,size_t b,size_t a)override{auto i=m.find(p);if(i==m.end()||i->second!=std::pair{b,a}){bad=true;return;}m.erase(i);--outstanding;::operator delete(p,std::align_val_t(a));}bool do_is_equal(const memory_resource&o)const noexcept override{return this==&o;}};
// which: 0 plain clipper, 1 origin tracker
static void m_oom(int n,int seed,int which){for(int k=0;k<n;++k){R r((unsigned long long)seed*1000003+k);Loops s=shapes(r,6+r.b(8),37,4),c=shapes(r,6+r.b(8),37,3);bool_op op=OPS[r.b(5)];bool tree=r.b(2);
   auto run=[&](Fail*res,auto&cl){cl.add_loops(s,bool_set::subject);cl.add_loops(c,bool_set::clip);std::vector<std::vector<std::tuple<C,C,std::vector<unsigned>>>> out;auto take=[&](auto&&l){out.emplace_back();for(auto&&v:l){if constexpr(requires{v.original_points;})out.back().push_back({v.p.x(),v.p.y(),{v.original_points.begin(),v.original_points.end()}});else out.back().push_back({v.x(),v.y(),{}});}};(void)res;
      if(tree){auto o=cl.template execute<true>(op);auto rec=[&](auto&&self,auto&&rr)->void{for(auto&&l:rr){take(l);self(self,l.inner_loops());}};rec(rec,o);}else{auto o=cl.template execute<false>(op);for(auto&&l:o)take(l);}return out;};
   auto all=[&](auto mk){long total;decltype(run((Fail*)nullptr,*mk(nullptr))) ref;{Fail f;auto cl=mk(&f);ref=run(&f,*cl);total=f.count;}
     for(long q=0;q<total;q+=1+(total>40?r.b(6):0)){Fail f;{auto cl=mk(&f);f.left=q;bool thrown=false;try{run(&f,*cl);}catch(std::bad_alloc&){thrown=true;}(void)thrown;f.left=-1;cl->reset();if constexpr(requires{cl->tracker;}){}auto again=run(&f,*cl);bool same=again.size()==ref.size();if(which==0||1){auto cmp=[](auto&v){size_t t=0;for(auto&l:v)t+=l.size();return t;};same=same&&cmp(again)==cmp(ref);}(void)same;
        Loops gs;for(auto&l:again){gs.emplace_back();for(auto&t:l)gs.back().push_back({std::get<0>(t),std::get<1>(t)});}if(crossing(gs).size())fail("after a failed allocation and a reset: "+crossing(gs));}
        if(f.bad||f.outstanding)fail("a failed allocation leaks or corrupts blocks");}};
   if(which==0)all([](Fail*f){return std::make_unique<tclipper<C,unsigned,null_tracker<C,unsigned>>>((std::pmr::memory_resource*)f);});
   else all([](Fail*f){return std::make_unique<tclipper<C,unsigned,origin_point_tracker<unsigned>>>(origin_point_tracker<unsigned>(f?(std::pmr::memory_resource*)f:std::pmr::get_default_resource()),(std::pmr::memory_resource*)f);});}}
// reuse of one object gives what a new object gives (exact input: no rounding happens)
static void m_reuse(int n,int seed){for(int k=0;k<n;++k){R r((unsigned long long)seed*1000003+k);clipper<C,unsigned> cl;std::string e;for(int j=0;j<5;++j){int G=3+r.b(8);Loops s,c;for(int q=0;q<3;++q){int x=r.b(G)*4,y=r.b(G)*4,w=4*(1+r.b(5)),h=4*(1+r.b(5));Loop l{{x,y},{x+w,y},{x+w,y+h},{x,y+h}};if(r.b(3)==0)std::reverse(l.begin(),l.end());(q<2?s:c).push_back(l);}
   bool_op op=OPS[r.b(5)];bool tree=r.b(2);cl.add_loops(s,bool_set::subject);cl.add_loops(c,bool_set::clip);clipper<C,unsigned> f;f.add_loops(s,bool_set::subject);f.add_loops(c,bool_set::clip);
   if(tree){std::vector<std::tuple<Loop,int,int>> a,b;walk(cl.execute<true>(op),0,a,-1);walk(f.execute<true>(op),0,b,-1);if(a!=b)e="reused object's hierarchy differs from a new object's";}else if(copy(cl.execute<false>(op))!=copy(f.execute<false>(op)))e="reused object's result differs from a new object's";
   if(r.b(4)==0)cl.reset();}
  if(e.size())fail(e);}}
static void m_threads(int n,int seed){auto work=[](int sd,int n){std::vector<Loops> o;for(int k=0;k<n;++k){R r((unsigned long long)sd*77777+k);Loops s=shapes(r,6+r.b(12),8,5),c=shapes(r,6,8,2);bool_op op=OPS[r.b(5)];std::vector<std::tuple<Loop,int,int>> t;walk(boolean_op<true,C,unsigned>(s,c,op),0,t,-1);Loops l;for(auto&x:t){l.push_back(std::get<0>(x));l.back().push_back({std::get<1>(x),std::get<2>(x)});}o.push_back(l);}return o;};
  std::vector<std::vector<Loops>> alone,par(6);for(int i=0;i<6;++i)alone.push_back(work(seed+i,n));for(int rep=0;rep<6;++rep){std::vector<std::thread> th;for(int i=0;i<6;++i)th.emplace_back([&,i]{par[i]=work(seed+i,n);});for(auto&t:th)t.join();for(int i=0;i<6;++i)if(par[i]!=alone[i])fail("a thread's results depend on other threads");}}
// results don't depend on where blocks are
static void m_address(int n,int seed){struct Shift:std::pmr::memory_resource{size_t sh;Shift(size_t s):sh(s){}void*do_allocate(size_t b,size_t a)override{size_t o=sh;char*p=(char*)::operator new(b+o+64,std::align_val_t(4096));(void)a;std::memset(p,(int)(sh&0xff),b+o);return p+o;}void do_deallocate(void*p,size_t,size_t)override{::operator delete((char*)p-sh,std::align_val_t(4096));}bool do_is_equal(const memory_resource&o)const noexcept override{return this==&o;}};
  for(int k=0;k<n;++k){R r((unsigned long long)seed*1000003+k);Loops s=shapes(r,8,1,6),c=shapes(r,8,1,4);bool_op op=OPS[r.b(5)];Loops ref;for(int j=0;j<8;++j){Shift m(64*j);clipper<C,unsigned> cl(&m);cl.add_loops(s,bool_set::subject);cl.add_loops(c,bool_set::clip);Loops o=copy(cl.execute<false>(op));if(!j)ref=o;else if(o!=ref){fail("the result depends on the addresses of blocks");break;}}}}
// exceptions from tracker callbacks and iterators
static void m_except(int n,int seed){struct Boom{};struct T:i_point_tracker<unsigned>{long left=-1;std::vector<int> v;void tick(){if(left==0)throw Boom{};if(left>0)--left;}void point_added(unsigned)override{tick();v.push_back(0);}void new_point_between(unsigned a,unsigned b)override{if(a>=v.size()||b>=v.size())fail("new_point_between mentions a point that does not exist");tick();v.push_back(0);}void point_merge(unsigned,unsigned)override{tick();}void reset()override{v.clear();}};
  struct W{T*p;i_point_tracker<unsigned>*callbacks(){return p;}point_t<C> get_value(unsigned,const point_t<C>&q)const{return q;}void reset(){p->reset();}};
  for(int k=0;k<n;++k){R r((unsigned long long)seed*1000003+k);Loops s=shapes(r,8,r.b(2)?64:1,4),c=shapes(r,8,r.b(2)?64:1,3);bool_op op=OPS[r.b(5)];
   T t;clipper<C,unsigned> cl;W w{&t};for(int j=0;j<6;++j){t.left=j==5?-1:r.b(30);int how=r.b(2);try{cl.add_loops(s,bool_set::subject,&t);cl.add_loops(c,bool_set::clip,&t);Loops o=copy(cl.execute<false>(op,w));std::string e=crossing(o);if(e.size())fail("after an exception: "+e+" "+desc(s,c));}catch(Boom&){}
     if(how||j==4){t.left=-1;cl.reset();t.reset();}}
   }}
static void m_time(int n,int seed){ // must finish
  for(int k=0;k<n;++k){R r((unsigned long long)seed*1000003+k);int G=3+r.b(60);Loop l;int m=6+r.b(40);for(int i=0;i<m;++i)l.push_back({r.b(G),r.b(G)});Loops o=copy(normalize_op<false,C,unsigned>(Loops{l}));std::string e=crossing(o);if(e.size())fail(e+" "+desc({l},{}));}}
static void m_life(int n,int seed){for(int k=0;k<n;++k){R r((unsigned long long)seed*1000003+k);Loops s=shapes(r,8,64,5);std::vector<std::tuple<Loop,int,int>> a,b;
   auto mk=[&](auto op){clipper<C,unsigned> cl;cl.add_loops(s,bool_set::subject);return std::move(cl).template execute<true>(op);};
   {auto x=mk(bool_op::union_);walk(x,0,a,-1);}
   {auto x=mk(bool_op::union_);std::vector<std::vector<char>> junk;for(int i=0;i<200;++i)junk.emplace_back(16+r.b(2000),(char)0x5a);auto y=std::move(x);walk(y,0,b,-1);}
   if(a!=b)fail("a result obtained by value changes when it is moved");}}
// an array kept by the caller from the callbacks stays in step with the library's points; each point has an index of the caller's choice
static void m_tracker(int n,int seed){struct T:i_point_tracker<unsigned>{std::vector<int> v;void point_added(unsigned o)override{v.push_back((int)o);}void new_point_between(unsigned a,unsigned b)override{if(a>=v.size()||b>=v.size())fail("new_point_between mentions a point that does not exist");v.push_back(-1);}void point_merge(unsigned,unsigned)override{}void reset()override{v.clear();}};
  struct V{unsigned i;point_t<C> p;};
  struct W{T*p;i_point_tracker<unsigned>*callbacks(){return p;}V get_value(unsigned i,const point_t<C>&q)const{return {i,q};}void reset(){p->reset();}};
  for(int k=0;k<n;++k){R r((unsigned long long)seed*1000003+k);T t;W w{&t};clipper<C,unsigned> cl;
    for(int round=0;round<3;++round){Loops s=shapes(r,8,r.b(2)?64:1,4);std::map<int,P> at;std::vector<int> ids;for(int i=0;i<400;++i)ids.push_back(i*3+1);for(int i=399;i>0;--i)std::swap(ids[i],ids[r.b(i+1)]);int q=0;
      std::vector<int> expect;
      for(auto&l:s){if(l.size()>60)l.resize(60);Loop raw;for(auto&p:l){raw.push_back(p);if(r.b(4)==0)raw.push_back(p);}while(r.b(3)==0)raw.push_back(raw[0]);
        std::vector<int> mine;Loop kept;{auto sink=cl.add_loop(r.b(3)?bool_set::subject:bool_set::clip,&t);
        for(auto&p:raw){int id=ids[q++%400];if(q>400)break;at[id]=p;sink(p,(unsigned)id);if(kept.empty()||!(kept.back()==p)){kept.push_back(p);mine.push_back(id);}}}
        while(kept.size()>1&&kept.back()==kept[0]){kept.pop_back();mine.pop_back();}
        if(kept.size()>2)expect.insert(expect.end(),mine.begin(),mine.end());}
      if(q>400)break;
      if(t.v!=expect)fail("the original indices reported are not those of the points kept "+desc(s,{}));
      Loops o;for(auto&&l:cl.execute<false>(OPS[r.b(5)],w)){for(V v:l){if(v.i>=t.v.size())fail("an output point has no slot");else if(t.v[v.i]>=0&&!(at[t.v[v.i]]==v.p))fail("an output point has the slot of another point");}}
      if(r.b(3)==0){cl.execute<false>(OPS[r.b(5)],w);if(t.v.size())fail("the array still holds points of an operation that is over");}
    }}}
// repeated points make no difference
static void m_dups(int n,int seed){for(int k=0;k<n;++k){R r((unsigned long long)seed*1000003+k);Loops s=shapes(r,6,8,3),d;for(auto&l:s){Loop clean;for(auto&p:l)if(clean.empty()||!(clean.back()==p))clean.push_back(p);while(clean.size()>1&&clean.back()==clean[0])clean.pop_back();l=clean;}
  for(auto&l:s){Loop x;for(size_t i=0;i<l.size();++i){x.push_back(l[i]);while(r.b(3)==0)x.push_back(l[i]);}while(r.b(2)&&l.size())x.push_back(l[0]);d.push_back(x);}
  bool_op op=OPS[r.b(5)];Loops a=copy(boolean_op<false,C,unsigned>(s,Loops{},op)),b=copy(boolean_op<false,C,unsigned>(d,Loops{},op));if(a!=b)fail("repeated points change the result of "+desc(d,{}));}}
// points given by a range that fails part way; what was read so far still has to make a well formed loop
static void m_partial(int n,int seed){struct Boom{};struct It{const Loop*l;size_t i,at;using value_type=P;using difference_type=std::ptrdiff_t;using iterator_concept=std::input_iterator_tag;P operator*()const{if(i==at)throw Boom{};return (*l)[i];}It&operator++(){++i;return *this;}void operator++(int){++i;}bool operator==(std::default_sentinel_t)const{return i==l->size();}};
  struct T:i_point_tracker<unsigned>{long left=-1;std::vector<int> v;void tick(){if(left==0)throw Boom{};if(left>0)--left;}void point_added(unsigned)override{tick();v.push_back(0);}void new_point_between(unsigned a,unsigned b)override{if(a>=v.size()||b>=v.size())fail("new_point_between mentions a point that does not exist");v.push_back(-1);}void point_merge(unsigned,unsigned)override{}void reset()override{v.clear();}};
  for(int k=0;k<n;++k){R r((unsigned long long)seed*1000003+k);clipper<C,unsigned> cl;T t;Loops s=shapes(r,6,8,3);bool trk=r.b(2);
    for(auto l:s){for(int q=r.b(4);q>0;--q)l.insert(l.begin()+1+r.b((int)l.size()),l[0]);t.left=trk?(long)r.b(12):-1;size_t at=trk?1000:r.b((int)l.size()+2);
      try{cl.add_loops(std::ranges::subrange(It{&l,0,at},std::default_sentinel),bool_set::subject,trk?&t:nullptr);}catch(Boom&){}}
    t.left=-1;struct W{T*p;i_point_tracker<unsigned>*callbacks(){return p;}P get_value(unsigned,const P&q)const{return q;}void reset(){p->reset();}};
    Loops o;if(trk)o=copy(cl.execute<false>(OPS[r.b(5)],W{&t}));else o=copy(cl.execute<false>(OPS[r.b(5)]));
    std::string e=crossing(o);if(e.size())fail("after a failed loop: "+e+" "+desc(s,{}));}}
// a result given back is returned as it is
static void m_fixed(int n,int seed){auto canon=[](const Loops&l){std::map<std::pair<std::pair<int,int>,std::pair<int,int>>,int> m;for(auto&a:l)for(size_t i=0;i<a.size();++i){P p=a[i],q=a[(i+1)%a.size()];++m[{{p.x(),p.y()},{q.x(),q.y()}}];--m[{{q.x(),q.y()},{p.x(),p.y()}}];}std::erase_if(m,[](auto&x){return x.second==0;});return m;};
  for(int k=0;k<n;++k){R r((unsigned long long)seed*1000003+k);Loops s=shapes(r,8,r.b(2)?64:1,4),c=shapes(r,8,r.b(2)?64:1,3);Loops a=copy(boolean_op<false,C,unsigned>(s,c,OPS[r.b(5)]));Loops b=a;for(auto&l:b)std::rotate(l.begin(),l.begin()+r.b((int)l.size()),l.end());std::reverse(b.begin(),b.end());
    int how=r.b(4);Loops o=how==0?copy(boolean_op<false,C,unsigned>(b,Loops{},bool_op::union_)):how==1?copy(boolean_op<false,C,unsigned>(a,b,bool_op::intersection)):how==2?copy(boolean_op<false,C,unsigned>(a,b,bool_op::union_)):copy(boolean_op<false,C,unsigned>(a,b,bool_op::xor_));
    if(how==3?canon(o).size()>0:canon(o)!=canon(a))fail("a result given back comes out changed, operation "+std::to_string(how)+" "+desc(a,{}));}}
// every operation ends: nearly parallel long lines, which have to be cut again and again
#include <unistd.h>
static void m_progress(int n,int seed){using L64=std::vector<std::vector<point_t<std::int64_t>>>;
  for(int i=0;i<n;++i){R r(seed*1000003ull+i);L64 in;int k=1+r.b(2);
    for(int j=0;j<k;++j){std::vector<point_t<std::int64_t>> l;int kind=r.b(3),m=3+r.b(4);std::int64_t X=(std::int64_t)(r.n()%(1ull<<50)),B=1ll<<(28+r.b(21));if(r.b(2))X=-X;
      for(int q=0;q<m;++q){std::int64_t a=X+r.b(7)-3,b=(q&1?1:-1)*(B-(std::int64_t)(r.n()%(unsigned long long)(B/4)));
        if(kind==0)l.push_back({a,b});else if(kind==1)l.push_back({b,a});else l.push_back({b+r.b(5),b+r.b(5)});}
      l.push_back({(std::int64_t)(r.n()%(1ull<<50)),(std::int64_t)(r.n()%(1ull<<50))});in.push_back(l);}
    alarm(20);auto out=boolean_op<false,std::int64_t>(in,L64{},OPS[r.b(4)]);alarm(0);(void)out.size();}}
// repeated points make no difference to an offset, whatever kind of range they come in
static void m_offdups(int n,int seed){struct It{const Loop*l;size_t i;using value_type=P;using difference_type=std::ptrdiff_t;using iterator_concept=std::input_iterator_tag;P operator*()const{return (*l)[i];}It&operator++(){++i;return *this;}void operator++(int){++i;}bool operator==(std::default_sentinel_t)const{return i==l->size();}};
  for(int k=0;k<n;++k){R r((unsigned long long)seed*1000003+k);Loop l;int m=1+r.b(6);for(int i=0;i<m;++i){P q{r.b(8)*200,r.b(8)*200};if(l.empty()||!(l.back()==q))l.push_back(q);}bool closed=r.b(2);if(closed)while(l.size()>1&&l.back()==l[0])l.pop_back();
    Loop d;for(auto&p:l){int c=1+(r.b(3)==0?1+r.b(3):0);while(c--)d.push_back(p);}if(closed)while(r.b(3)==0)d.push_back(l[0]);double mag=10+r.b(120);if(closed&&r.b(3)==0)mag=-mag;
    Loops o[3];for(int w=0;w<3;++w){clipper<C,unsigned> cl;if(w==0)add_offset(cl,l,bool_set::subject,mag,20,closed);else if(w==1)add_offset(cl,d,bool_set::subject,mag,20,closed);else add_offset(cl,std::ranges::subrange(It{&l,0},std::default_sentinel),bool_set::subject,mag,20,closed);o[w]=copy(cl.execute<false>(bool_op::union_));}
    if(!closed||l.size()>2||mag<0){if(o[0]!=o[1])fail("repeated points change an offset "+desc({l},{d}));}
    if(o[0]!=o[2])fail("a single-pass range gives another offset "+desc({l},{}));}}
// with several paths, points report the path they came from
static void m_offorig2(int n,int seed){for(int k=0;k<n;++k){R r((unsigned long long)seed*1000003+k);tclipper<C,unsigned,origin_point_tracker<unsigned>> cl;int np=2+r.b(3);std::vector<std::pair<int,int>> range;int total=0;
    for(int q=0;q<np;++q){Loop l;int m=1+r.b(6);for(int i=0;i<m;++i){P p{q*20000+r.b(8)*200,r.b(8)*200};int c=1+(r.b(4)==0?1+r.b(2):0);while(c--)l.push_back(p);}bool closed=r.b(2);range.push_back({total,total+(int)l.size()});total+=(int)l.size();if(r.b(2))add_offset_subject(cl,l,10.0+r.b(120),20,closed);else add_offset(cl,std::vector<Loop>{l},bool_set::subject,10.0+r.b(120),20,closed);}
    for(auto&&l:cl.execute<false>(bool_op::union_))for(auto v:l){int q=(v.p.x()+5000)/20000;for(unsigned o:v.original_points)if((int)o<range[q].first||(int)o>=range[q].second)fail("a point reports a point of another path");}}}
// offsets of open paths given by single-pass ranges, on several threads at once
static void m_offthreads(int n,int seed){struct It{const Loop*l;size_t i;using value_type=P;using difference_type=std::ptrdiff_t;using iterator_concept=std::input_iterator_tag;P operator*()const{if(i%16==0)std::this_thread::yield();return (*l)[i];}It&operator++(){++i;return *this;}void operator++(int){++i;}bool operator==(std::default_sentinel_t)const{return i==l->size();}};
  auto work=[&](int sd){std::vector<Loops> o;for(int k=0;k<n;++k){R r((unsigned long long)sd*77777+k);Loop l;int m=20+r.b(60);for(int i=0;i<m;++i)l.push_back({i*50+r.b(30),r.b(300)});clipper<C,unsigned> cl;add_offset(cl,std::ranges::subrange(It{&l,0},std::default_sentinel),bool_set::subject,10.0+r.b(30),20,false);o.push_back(copy(cl.execute<false>(bool_op::union_)));}return o;};
  std::vector<std::vector<Loops>> alone(4),both(4);for(int t=0;t<4;++t)alone[t]=work(seed*10+t);std::vector<std::thread> th;for(int t=0;t<4;++t)th.emplace_back([&,t]{both[t]=work(seed*10+t);});for(auto&t:th)t.join();for(int t=0;t<4;++t)if(alone[t]!=both[t])fail("a thread's offsets change when others run");}
int main(int argc,char**argv){std::string m=argc>1?argv[1]:"";int n=argc>2?std::atoi(argv[2]):1000,seed=argc>3?std::atoi(argv[3]):1;
  if(m=="tracker")m_tracker(n,seed);else if(m=="dups")m_dups(n,seed);else if(m=="partial")m_partial(n,seed);else if(m=="fixed")m_fixed(n,seed);else if(m=="offdups")m_offdups(n,seed);else if(m=="offorig2")m_offorig2(n,seed);else if(m=="offthreads")m_offthreads(n,seed);else if(m=="progress")m_progress(n,seed);else if(m=="region")m_region(n,seed,false);else if(m=="cross")m_region(n,seed,true);else if(m=="hier")m_hier(n,seed);else if(m=="set")m_set(n,seed);else if(m=="origin")m_origin(n,seed);else if(m=="offorigin")m_offorigin(n,seed);else if(m=="offset")m_offset(n,seed);else if(m=="raster")m_raster(n,seed);else if(m=="fill")m_fill(n,seed);else if(m=="oom")m_oom(n,seed,0);else if(m=="oomorigin")m_oom(n,seed,1);else if(m=="reuse")m_reuse(n,seed);else if(m=="threads")m_threads(n,seed);else if(m=="address")m_address(n,seed);else if(m=="except")m_except(n,seed);else if(m=="time")m_time(n,seed);else if(m=="life")m_life(n,seed);else return 2;
  std::printf("%s: %d wrong of %d\n",m.c_str(),fails,n);return fails?1:0;}
