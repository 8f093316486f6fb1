// Demonstrations of the genuine defects found in the library (one per case number).
// Exit 0: behaves; exit 1 / crash / hang: defective.   usage: defects <case>
#include <memory>
#include <algorithm>
#include <set>
#include <iostream>
#include <cstdio>
#include <cstdlib>
#include <zerialize/zerialize.hpp>
#include <zerialize/protocols/zera.hpp>
#include <zerialize/protocols/msgpack.hpp>
#include <zerialize/protocols/flex.hpp>
#include <zerialize/tensor/xtensor.hpp>
#include <zerialize/tensor/eigen.hpp>
#include <xtensor/xview.hpp>
using namespace zerialize;
using V = std::vector<uint8_t>;
static int bad(const char* m){ std::printf("DEFECT: %s\n", m); return 1; }
template<class F> static int throws_de(F f){ try { f(); } catch (const DeserializationError&) { return 1; } return 0; }
static void le(V& b, size_t at, uint64_t v, int n){ for(int i=0;i<n;++i) b[at+i]=uint8_t(v>>(8*i)); }
struct Heap { uint8_t* p; size_t n; Heap(const V& v):p((uint8_t*)malloc(v.size()?v.size():1)),n(v.size()){ if(n) memcpy(p,v.data(),n);} ~Heap(){free(p);} std::span<const uint8_t> s()const{return {p,n};} };
static V zhdr(size_t env, size_t total){ V b(total,0); le(b,0,0x564E455A,4); le(b,4,1,2); le(b,6,1,2); le(b,8,0,4); le(b,12,env,4); size_t a=(20+env+15)/16*16; le(b,16,a,4); return b; }
static volatile size_t sink;
int main(int argc,char**argv){
  int c = std::atoi(argv[1]);
  switch(c){
  case 1: { // zera mapKeys iterator reads the key length before checking bounds
    V b=zhdr(28,48); b[20]=6; le(b,24,24,4); /* object payload at env ofs 24 */ le(b,20+24,1,4); // count 1, entries at env end (28) == buf end 48
    Heap h(b); Zera::Deserializer d(h.s());
    return throws_de([&]{ for(auto k: d.mapKeys()) sink+=k.size(); }) ? 0 : bad("hostile object entries accepted"); }
  case 2: { // mapKeys() of a temporary value
    auto z = serialize<Zera>(zvec(zmap<"alpha","beta">(1,2)));
    Zera::Deserializer d(z.buf()); std::string s;
    for (auto k : d[size_t(0)].mapKeys()) s+=std::string(k)+",";
    return s=="alpha,beta," ? 0 : bad("keys wrong"); }
  case 3: { // index >= 2^28 aliases element 0
    V b=zhdr(64,96); b[20]=5; le(b,24,16,4); le(b,20+16,0x10000001u,4); b[20+20]=1; b[20+22]=1;
    Heap h(b); Zera::Deserializer d(h.s());
    return throws_de([&]{ (void)d[size_t(1)<<28].isBool(); }) ? 0 : bad("index 2^28 returned element 0"); }
  case 4: { // msgpack truncated string
    int r=0;
    for (V b : {V{0xa5,'x'}, V{0xd9}, V{0xda,0}, V{0xdb,0,0,0}, V{0xc4}, V{0xc4,9,1}, V{0xc5,1}, V{0xc6,0,0}, V{}}) { Heap h(b); MsgPack::Deserializer d(h.s());
      r += !throws_de([&]{ auto s=d.asString(); sink+=s.size(); });
      r += !throws_de([&]{ auto s=d.asBlob(); for(auto x:s) sink+=size_t(x); }); }
    for (V b : {V{0xdc}, V{0xdd,0}, V{0xde,1}, V{0xdf,0,0}, V{0x91}, V{0x91,0xa4,'a'}, V{0x81,0xa3,'a'}, V{0x81,0xa1,'a',0xd9}}) { Heap h(b); MsgPack::Deserializer d(h.s());
      if (d.isArray()) r += !throws_de([&]{ size_t n=d.arraySize(); auto e=d[size_t(0)]; sink+=n+e.asString().size(); });
      else r += !throws_de([&]{ for(auto k:d.mapKeys()) sink+=k.size(); auto e=d["a"]; sink+=e.asString().size(); }); }
    return r? bad("truncated msgpack accepted"):0; }
  case 5: { // msgpack deep nesting: skip recursion
    V b(4'000'000,0x91); b.push_back(1); Heap h(b); MsgPack::Deserializer d(h.s());
    try { auto e=d[size_t(0)]; sink+=e.isArray(); } catch(const DeserializationError&){} return 0; }
  case 6: { V b{0xcf,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff}; V n{0xff};
    int r=0; r+=!throws_de([&]{ sink+=MsgPack::Deserializer(b).asInt64(); }); r+=!throws_de([&]{ sink+=MsgPack::Deserializer(n).asUInt64(); });
    return r?bad("msgpack int accessor wrapped"):0; }
  case 7: { auto z=serialize<Flex>(int64_t(300)); Flex::Deserializer d(z.buf()); return throws_de([&]{ sink+=d.asInt8(); })?0:bad("flex asInt8(300) truncated"); }
  case 8: { flexbuffers::Builder f; f.TypedVector([&]{ f.Int(1); f.Int(2); }); f.Finish(); Flex::Deserializer d(f.GetBuffer());
    return d.isArray() && d.arraySize()==2 && d[size_t(1)].asInt64()==2 ? 0 : bad("typed vector reads as empty"); }
  case 9: { V a=serialize<Zera>(zvec("a long string stored in the arena")).to_vector_copy(); auto p=std::make_unique<Zera::Deserializer>(a); Zera::Deserializer q(*p); p.reset();
    return q[size_t(0)].asString()=="a long string stored in the arena"?0:bad("copy reads the original"); }
  case 91: { V a=serialize<MsgPack>(zvec("a long string")).to_vector_copy(); auto p=std::make_unique<MsgPack::Deserializer>(a); MsgPack::Deserializer q(*p); p.reset(); return q[size_t(0)].asString()=="a long string"?0:bad("copy"); }
  case 92: { V a=serialize<Flex>(zvec("a long string")).to_vector_copy(); auto p=std::make_unique<Flex::Deserializer>(a); Flex::Deserializer q(*p); p.reset(); return q[size_t(0)].asString()=="a long string"?0:bad("copy"); }
  case 10: { uint8_t x[4]; try { ZBuffer z(x,4,std::function<void(uint8_t*)>{}); return bad("accepted"); } catch(const std::invalid_argument&){} 
             char y[4]; try { ZBuffer z(y,4,std::function<void(char*)>{}); return bad("accepted"); } catch(const std::invalid_argument&){} 
             void* v=y; try { ZBuffer z(v,4,std::function<void(void*)>{}); return bad("accepted"); } catch(const std::invalid_argument&){} return 0; }
  case 101: { ZBuffer a(malloc(8),8,ZBuffer::Deleters::Free); ZBuffer b(std::move(a)); return a.size()==0&&a.data()==nullptr&&a.empty()?0:bad("moved-from managed buffer reports bytes it no longer has"); }
  case 102: { ZBuffer a(V{1,2,3}); auto s=a.hexdump(0); return 0; }
  case 11: { std::vector<std::byte> none; auto z=serialize<Zera>(zvec(11, std::vector<uint64_t>{1u<<31,1u<<30}, none)); Zera::Deserializer d(z.buf());
     int r=0; r+=!throws_de([&]{ auto v=xtensor::asXTensorView<double>(d); sink+=v.viewInfo().byte_size; });
     r+=!throws_de([&]{ auto v=eigen::asEigenMatrixView<double,Eigen::Dynamic,Eigen::Dynamic>(d); sink+=v.viewInfo().byte_size; }); return r?bad("huge shape over empty blob accepted"):0; }
  case 12: { xt::xarray<double> a={{1,2,3},{4,5,6}}; auto v=xt::view(a, xt::range(1,2), xt::all());
     auto z=serialize<Zera>(v); Zera::Deserializer d(z.buf()); auto t=xtensor::asXTensor<double>(d); xt::xarray<double> e={{4,5,6}}; return t==e?0:bad("view serialized wrong elements"); }
  case 121: { xt::xarray<double,xt::layout_type::column_major> a={{1,2,3},{4,5,6}};
     auto z=serialize<Zera>(a); Zera::Deserializer d(z.buf()); auto t=xtensor::asXTensor<double>(d); xt::xarray<double> e={{1,2,3},{4,5,6}}; return t==e?0:bad("column-major array read back permuted"); }
  case 122: { xt::xarray<double> a={{1,2,3},{4,5,6}}; auto v=xt::view(a, xt::all(), xt::range(1,3));
     auto z=serialize<Zera>(v); Zera::Deserializer d(z.buf()); auto t=xtensor::asXTensor<double>(d); xt::xarray<double> e={{2,3},{5,6}}; return t==e?0:bad("strided view serialized wrong elements"); }
  case 13: { auto mk=[](std::string s){ return zmap<"k">(std::string(s+"-0123456789012345678901234567890")); }; auto b=mk("x"); auto z=serialize<Zera>(b); Zera::Deserializer d(z.buf());
     return d["k"].asString()=="x-0123456789012345678901234567890"?0:bad("stored builder dangles"); }
  case 14: { V b=zhdr(36,64); b[20]=5; le(b,24,16,4); le(b,20+16,1,4); b[20+20]=5; le(b,20+24,16,4); Heap h(b); Zera::Deserializer d(h.s());
     return throws_de([&]{ auto m=translate<MsgPack>(d); sink+=m.isArray(); })?0:bad("cyclic buffer translated"); }
  case 141: { V b(60'000,0x91); b.push_back(1); MsgPack::Deserializer d{std::span<const uint8_t>(b)}; try { (void)d.to_string(); } catch(const DeserializationError&){} return 0; }
  }
  return 2;
}
