// programs that build PLONK expressions and whole constraint systems; needs F, Ex and CS
#pragma once
struct World { std::vector<Selector> ss, sc; std::vector<FixedColumnKey> f; std::vector<AdviceColumnKey> a; std::vector<InstanceColumnKey> i; std::vector<Challenge> c; };
static Ex parse(u64 n, const u64* p, const F* co, VirtualCells<F>& m, const World& w) {
  std::vector<Ex> st;
  auto pop = [&] { Ex e = std::move(st.back()); st.pop_back(); return e; };
  for (u64 j = 0; j < n; ++j) {
    u64 a = (p[j] >> 8) & 0xffff; Rotation rot(i32((p[j] >> 24) & 0xffff) - 0x8000);
    switch (p[j] & 0xff) {
      case 0: st.push_back(tachyon::zk::ExpressionFactory<F>::Constant(co[a])); break;
      case 1: st.push_back(m.QuerySelector(w.ss[a])); break;
      case 2: st.push_back(m.QuerySelector(w.sc[a])); break;
      case 3: st.push_back(m.QueryFixed(w.f[a], rot)); break;
      case 4: st.push_back(m.QueryAdvice(w.a[a], rot)); break;
      case 5: st.push_back(m.QueryInstance(w.i[a], rot)); break;
      case 6: st.push_back(m.QueryChallenge(w.c[a])); break;
      case 7: st.push_back(-pop()); break;
      case 8: { Ex r = pop(), l = pop(); st.push_back(std::move(l) + std::move(r)); break; }
      case 9: { Ex r = pop(), l = pop(); st.push_back(std::move(l) * std::move(r)); break; }
      case 10: st.push_back(pop() * co[a]); break;
    }
  }
  return pop();
}
// system: type, fixed, advice, instance, simple, complex, challenges, min degree, then lists:
// equality columns (kind << 8 | index); gates: polynomials; lookups: pairs; shuffles: pairs (each expression: length, words)
struct In { const u64* p; u64 next() { return *p++; } };
static Ex take(In& in, const F* co, VirtualCells<F>& m, const World& w) { u64 n = in.next(); Ex e = parse(n, in.p, co, m, w); in.p += n; return e; }
static AnyColumnKey anycol(u64 v, const World& w) { u64 k = v >> 8, i = v & 255; return k == 0 ? AnyColumnKey(w.f[i]) : k == 1 ? AnyColumnKey(w.a[i]) : AnyColumnKey(w.i[i]); }
static void build(CS& cs, World& w, const u64* prog, const F* co) {
  In in{prog}; u64 type = in.next(); cs.set_lookup_type(type ? lookup::Type::kLogDerivativeHalo2 : lookup::Type::kHalo2);
  u64 h[7]; for (u64& x : h) x = in.next();
  for (u64 j = 0; j < h[0]; ++j) w.f.push_back(cs.CreateFixedColumn());
  for (u64 j = 0; j < h[1]; ++j) w.a.push_back(cs.CreateAdviceColumn());
  for (u64 j = 0; j < h[2]; ++j) w.i.push_back(cs.CreateInstanceColumn());
  u64 s = 0, c = 0; while (s < h[3] || c < h[4]) { if (s < h[3]) { w.ss.push_back(cs.CreateSimpleSelector()); ++s; } if (c < h[4]) { w.sc.push_back(cs.CreateComplexSelector()); ++c; } }
  for (u64 j = 0; j < h[5]; ++j) w.c.push_back(cs.CreateChallengeUsableAfter(kFirstPhase));
  if (h[6]) cs.set_minimum_degree(h[6]);
  for (u64 n = in.next(); n; --n) cs.EnableEquality(anycol(in.next(), w));
  for (u64 n = in.next(); n; --n) cs.CreateGate("g", [&](VirtualCells<F>& m) { std::vector<Constraint<F>> r; for (u64 k = in.next(); k; --k) r.push_back(Constraint<F>(take(in, co, m, w))); return r; });
  for (u64 n = in.next(), t = 0; n; --n, ++t) cs.LookupAny(std::string_view("abcdefghijklmnopqrstuvwxyz" + t, 1), [&](VirtualCells<F>& m) { lookup::Pairs<Ex> r; for (u64 k = in.next(); k; --k) { Ex a = take(in, co, m, w), b = take(in, co, m, w); r.emplace_back(std::move(a), std::move(b)); } return r; });
  for (u64 n = in.next(); n; --n) cs.Shuffle("s", [&](VirtualCells<F>& m) { shuffle::Pairs<Ex> r; for (u64 k = in.next(); k; --k) { Ex a = take(in, co, m, w), b = take(in, co, m, w); r.emplace_back(std::move(a), std::move(b)); } return r; });
  if (type) cs.ChunkLookups();
}
