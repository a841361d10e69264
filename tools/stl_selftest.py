import sys, os; sys.path.insert(0, os.environ.get('VP', '/verif'))
from engine import harness as H, build as B, algebra as A, absint as I
T=r'''
#include <vector>
#include <list>
#include <deque>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <queue>
#include <stack>
#include <memory>
#include <functional>
#include <algorithm>
#include <numeric>
#include <string>
#include <sstream>
#include <array>
#include <tuple>
#include <bitset>
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <stdexcept>
#include <iterator>
typedef long L;
struct Base { virtual L f( L ) const = 0; virtual ~Base() {} };
struct D1: Base { L f( L x ) const { return x+1; } };
extern "C" {
L t_umap( L n ) { std::unordered_map<L,L> m; for( L i=0;i<n;i++ ) m[i*7%11]+=i; L s=0; for( auto &k: m ) s+=k.first*k.second; return s+m.size()+m.count(3); }
L t_uset( L n ) { std::unordered_set<L> m; for( L i=0;i<n;i++ ) m.insert(i%5); m.erase(2); return m.size()*10+(m.find(3)!=m.end()); }
L t_list( L n ) { std::list<L> l; for( L i=0;i<n;i++ ) l.push_back(i); l.pop_front(); l.reverse(); l.push_front(100); L s=0,k=1; for( L x: l ) s+=x*k++; return s; }
L t_lists( L n ) { std::list<L> l; for( L i=0;i<n;i++ ) l.push_back((i*7)%n); l.sort(); L s=0,k=1; for( L x: l ) s+=x*k++; return s; }
L t_deque( L n ) { std::deque<L> l; for( L i=0;i<n;i++ ) { l.push_back(i); l.push_front(-i); } L s=0; for( std::size_t i=0;i<l.size();i++ ) s+=l[i]*i; l.pop_back(); l.pop_front(); return s+l.size(); }
L t_queue( L n ) { std::queue<L> q; for( L i=0;i<n;i++ ) q.push(i); L s=0,k=1; while( !q.empty() ) { s+=k++*q.front(); q.pop(); } return s; }
L t_pq( L n ) { std::priority_queue<L> q; for( L i=0;i<n;i++ ) q.push((i*7)%n); L s=0,k=1; while( !q.empty() ) { s+=k++*q.top(); q.pop(); } return s; }
L t_sort( L n ) { std::vector<L> v; for( L i=0;i<n;i++ ) v.push_back((i*7)%n); std::sort(v.begin(),v.end(),[](L a,L b){return a>b;}); L s=0; for( L i=0;i<n;i++ ) s+=i*v[i]; return s; }
L t_ssort( L n ) { std::vector<std::pair<L,L>> v; for( L i=0;i<n;i++ ) v.push_back({(i*7)%3,i}); std::stable_sort(v.begin(),v.end(),[](std::pair<L,L> const&a,std::pair<L,L> const&b){return a.first<b.first;}); L s=0; for( L i=0;i<n;i++ ) s+=i*v[i].second; return s; }
L t_nth( L n ) { std::vector<L> v(n); std::iota(v.begin(),v.end(),0); std::reverse(v.begin(),v.end()); std::nth_element(v.begin(),v.begin()+n/2,v.end()); std::rotate(v.begin(),v.begin()+1,v.end()); std::partial_sort(v.begin(),v.begin()+2,v.end()); return v[0]*10+v[1]; }
L t_part( L n ) { std::vector<L> v(n); std::iota(v.begin(),v.end(),0); auto it=std::stable_partition(v.begin(),v.end(),[](L x){return x%2;}); return (it-v.begin())*100+v[0]*10+v[1]; }
L t_acc( L n ) { std::vector<L> v(n,2); return std::accumulate(v.begin(),v.end(),L(1))+std::inner_product(v.begin(),v.end(),v.begin(),L(0))+std::count_if(v.begin(),v.end(),[](L x){return x==2;})+*std::max_element(v.begin(),v.end()); }
L t_trans( L n ) { std::vector<L> v(n,2),w; std::transform(v.begin(),v.end(),std::back_inserter(w),[&](L x){return x*n;}); std::partial_sum(w.begin(),w.end(),w.begin()); return w.back(); }
L t_func( L n ) { std::function<L(L)> f=[n](L x){return x+n;}; std::function<L(L)> g=f; return g(3); }
L t_uniq( L n ) { std::unique_ptr<Base> p(new D1); auto q=std::move(p); std::unique_ptr<L[]> a(new L[n]); a[n-1]=4; return q->f(n)+a[n-1]; }
L t_shared( L n ) { std::shared_ptr<Base> p=std::make_shared<D1>(); std::shared_ptr<Base> q=p; std::weak_ptr<Base> w=q; return p->f(n)+q.use_count(); }
L t_str( L n ) { std::string s=std::to_string(n); s+="_"+std::to_string(n+1); s.insert(0,"a"); s=s.substr(1)+'c'; return s.size()*100+s[0]; }
L t_ss( L n ) { std::stringstream s; s<<n<<"_"<<n+1; return s.str().size(); }
L t_stol( L n ) { return std::stol("42")+std::stoi("7")+std::atoi("3")+n; }
L t_arr( L n ) { std::array<L,4> a; a.fill(n); std::tuple<L,L> t(a[0],2); L x,y; std::tie(x,y)=t; std::bitset<8> b(n); return x*y+b.count()+std::get<0>(t); }
L t_set( L n ) { std::set<std::pair<L,L>> s; for( L i=0;i<n;i++ ) s.insert(std::make_pair(i%4,i%2)); auto it=s.lower_bound(std::make_pair(L(2),L(0))); return s.size()*10+it->first; }
L t_mmap( L n ) { std::multimap<L,L> m; for( L i=0;i<n;i++ ) m.emplace(i%3,i); auto r=m.equal_range(1); L s=0; for( auto i=r.first;i!=r.second;++i ) s+=i->second; return s; }
L t_static( L n ) { static std::vector<L> v(3,n); static L c=n*2; return v[0]+c++; }
L t_exc( L n ) { try { if( n>3 ) throw std::runtime_error("a"); return 1; } catch( std::exception const & ) { return 2; } }
L t_at( L n ) { std::vector<L> v(n,3); return v.at(n-1); }
L t_vb( L n ) { std::vector<bool> b(n,false); b[1]=true; b.push_back(true); b.flip(); return std::count(b.begin(),b.end(),true); }
L t_math( L n ) { double x=n; return std::lround(x*1.5)+std::llabs(-n)+(L)std::trunc(2.7)+(L)std::pow(x,2)+(L)std::hypot(3.,4.)+std::signbit(-x)+(L)std::cbrt(27.)+std::isnan(x)+std::isfinite(x)+(L)std::fma(x,x,1.)+std::min({n,L(3),L(4)})+(L)std::copysign(1.,-x)+(L)std::nearbyint(x)+(L)std::fmax(x,2.)+(L)std::ldexp(1.,3)+(L)std::exp2(3.); }
L t_swap( L n ) { std::vector<L> a(n,1),b(2,3); a.swap(b); std::swap(a[0],b[0]); b.erase(b.begin()); b.insert(b.begin()+1,9); b.resize(n+3); b.shrink_to_fit(); return a[0]+b[1]+b.size(); }
L t_qsort( L n ) { L a[5]={n,2,9,1,4}; std::qsort(a,5,sizeof(L),[](void const*x,void const*y){return (int)(*(L*)x-*(L*)y);}); return a[0]*10+a[4]; }
L t_algos( L n ) { std::vector<L> a(n),b(n); std::iota(a.begin(),a.end(),0); std::iota(b.begin(),b.end(),2); std::vector<L> c; std::set_intersection(a.begin(),a.end(),b.begin(),b.end(),std::back_inserter(c)); std::vector<L> d; std::merge(a.begin(),a.end(),b.begin(),b.end(),std::back_inserter(d)); d.erase(std::unique(d.begin(),d.end()),d.end()); c.erase(std::remove_if(c.begin(),c.end(),[](L x){return x%2;}),c.end()); return c.size()*100+d.size()+std::binary_search(a.begin(),a.end(),3)+(std::lower_bound(b.begin(),b.end(),4)-b.begin())+std::is_sorted(d.begin(),d.end())+std::equal(a.begin(),a.end(),b.begin())+std::all_of(a.begin(),a.end(),[](L x){return x>=0;}); }
L t_cstr( L n ) { char b[20]; std::strcpy(b,"ab"); std::strcat(b,"cd"); std::snprintf(b+4,10,"%ld",n); return std::strlen(b)+(std::strchr(b,'c')-b); }
L t_umaps( L n ) { std::unordered_map<std::string,L> m; m["a"]=n; m["b"]=2; return m["a"]+m.at("b")+m.size(); }
L t_maps( L n ) { std::map<std::string,L> m; m["a"]=n; m["b"]=2; m.erase("b"); return m["a"]+m.size()+(m.find("c")==m.end()); }
}
'''
EXP={}
import subprocess,re,tempfile
names=re.findall(r'L (t_\w+)\( L n \)',T)
open('/tmp/w/stl.cpp','w').write(T+'\n#include <cstdio>\nint main() {'+''.join(f'printf("{n} %ld\\n",{n}(7));' for n in names)+'}')
subprocess.run('g++ -std=c++14 -O1 -w /tmp/w/stl.cpp -o /tmp/w/stl',shell=True,check=True)
for l in subprocess.run('/tmp/w/stl',capture_output=True,text=True).stdout.split('\n'):
    if l: EXP[l.split()[0]]=int(l.split()[1])

c=H.Check('C99')
m=c.driver(T,B.v_flags(),'stl')
import multiprocessing as mp
def one(n,q):
    s=c.session([m]); ok=s.call(n,7); q.put((ok,s.ret if not isinstance(s.ret,A.T) else repr(s.ret)[:80],s.why[:150],[b[0][:150] for b in s.it.bottoms[:2]]))
bad=0
sel=sys.argv[1:] or names
for n in sel:
    q=mp.Queue(); p=mp.Process(target=one,args=(n,q)); p.start()
    try: r=q.get(timeout=15)
    except Exception: r=(False,None,'timeout',[])
    p.kill()
    if not r[0] or r[1]!=EXP[n]: bad+=1; print(n,'exp',EXP[n],'got',r)
print(len(sel),bad)
