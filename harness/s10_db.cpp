// S10: the feature database against a plain model (sequential histories), and conservation of measurements under concurrency.
#include "vh.h"
#include "feat/Feature.h"
#include "feat/FeatureDatabase.h"
#include "feat/FeatureHelper.h"
#include <atomic>
#include <thread>
using namespace vh;
using ov_core::Feature;
using ov_core::FeatureDatabase;
typedef std::shared_ptr<Feature> FP;
struct M { double t; float u, v, un, vn; };
struct MF { std::map<size_t, std::vector<M>> cams; bool del = false; };
typedef std::map<size_t, MF> Model;
static long total(const MF &f) { long n = 0; for (auto &c : f.cams) n += c.second.size(); return n; }
/// a stored feature equals the model's, entry by entry, and its arrays are parallel
static bool same(const Feature &f, size_t id, const MF &m, std::string &why) {
  if (f.featid != id) { why = fmt("featid %zu instead of %zu", f.featid, id); return false; }
  auto nonempty = [](const std::unordered_map<size_t, std::vector<double>> &t) { size_t n = 0; for (auto &p : t) n += !p.second.empty(); return n; };
  size_t mm = 0;
  for (auto &c : m.cams) mm += !c.second.empty();
  if (nonempty(f.timestamps) != mm) { why = "different cameras"; return false; }
  for (auto &c : m.cams) {
    if (c.second.empty()) continue;
    if (!f.timestamps.count(c.first) || !f.uvs.count(c.first) || !f.uvs_norm.count(c.first)) { why = "camera missing"; return false; }
    auto &t = f.timestamps.at(c.first); auto &u = f.uvs.at(c.first); auto &n = f.uvs_norm.at(c.first);
    if (t.size() != c.second.size() || u.size() != t.size() || n.size() != t.size()) { why = fmt("camera %zu has %zu/%zu/%zu entries instead of %zu", c.first, t.size(), u.size(), n.size(), c.second.size()); return false; }
    for (size_t i = 0; i < t.size(); i++) {
      const M &x = c.second[i];
      if (t[i] != x.t || u[i](0) != x.u || u[i](1) != x.v || n[i](0) != x.un || n[i](1) != x.vn) { why = fmt("entry %zu of camera %zu differs (time %.4f, expected %.4f)", i, c.first, t[i], x.t); return false; }
    }
  }
  if (f.to_delete != m.del) { why = "deletion mark differs"; return false; }
  return true;
}
static void compare(FeatureDatabase &db, const Model &m, const std::string &key, const std::string &d) {
  auto in = db.get_internal_data();
  check(db.size() == m.size() && in.size() == m.size(), key + ":size", d + fmt(" %zu instead of %zu", in.size(), m.size()));
  for (auto &f : m) {
    auto it = in.find(f.first);
    if (it == in.end()) { check(false, key + ":lost-feature", d + fmt(" id %zu", f.first)); continue; }
    std::string why;
    check(same(*it->second, f.first, f.second, why), key + ":content", d + fmt(" id %zu: ", f.first) + why);
  }
}
static void sequential(long c, Rng &r) {
  auto db = std::make_shared<FeatureDatabase>(), other = std::make_shared<FeatureDatabase>();
  Model m, mo;
  std::vector<double> times;
  double t = r.p(0.2) ? 0 : r.u(0, 1e3);
  int ncam = r.i(1, 4), nid = r.i(1, 40), steps = r.i(5, 60);
  size_t idbase = r.p(0.1) ? ((size_t)1 << 33) : 0;
  auto addto = [&](FeatureDatabase &D, Model &mm, size_t id, double tt, size_t cam) {
    M x{tt, (float)r.u(0, 700), (float)r.u(0, 500), (float)r.n(), (float)r.n()};
    D.update_feature(id, tt, cam, x.u, x.v, x.un, x.vn);
    mm[id].cams[cam].push_back(x);
  };
  auto addboth = [&](size_t id, double tt, size_t cam) {
    M x{tt, (float)r.u(0, 700), (float)r.u(0, 500), (float)r.n(), (float)r.n()};
    other->update_feature(id, tt, cam, x.u, x.v, x.un, x.vn);
    mo[id].cams[cam].push_back(x);
  };
  (void)addboth;
  auto qt = [&]() { return times.empty() || r.p(0.25) ? t + r.u(-2, 1) : r.p(0.1) ? -1.0 : times[r.i(std::max(0, (int)times.size() - 8), (int)times.size() - 1)]; };
  for (int s = 0; s < steps; s++) {
    std::string d = fmt("case %ld step %d", c, s);
    int op = r.i(0, 15);
    if (op < 5) { // a frame
      t += r.u(0.01, 0.3);
      times.push_back(t);
      int cams = r.i(1, ncam);
      for (int k = 0; k < nid; k++)
        if (r.p(0.4)) for (int q = 0; q < cams; q++) if (r.p(0.8)) { addto(*db, m, idbase + k, t, q); if (r.p(0.05)) addto(*db, m, idbase + k, t, q); }
      count("op:update");
    } else if (op < 9) { // queries
      double x = qt();
      bool rem = r.p(0.25), skip = r.p(0.5);
      int kind = r.i(0, 2);
      std::set<size_t> want;
      for (auto &f : m) {
        if (skip && f.second.del) continue;
        bool newer = false, older = false, at = false;
        for (auto &cc : f.second.cams) for (auto &y : cc.second) { newer = newer || y.t >= x; older = older || y.t < x; at = at || y.t == x; }
        if (kind == 0 ? !newer : kind == 1 ? older : at) want.insert(f.first);
      }
      auto got = kind == 0 ? db->features_not_containing_newer(x, rem, skip) : kind == 1 ? db->features_containing_older(x, rem, skip) : db->features_containing(x, rem, skip);
      std::string key = kind == 0 ? "not-newer" : kind == 1 ? "older" : "containing";
      std::set<size_t> ids;
      for (auto &f : got) {
        check(ids.insert(f->featid).second, key + ":returned-twice", d);
        if (m.count(f->featid)) { std::string why; check(same(*f, f->featid, m[f->featid], why), key + ":content", d + " " + why); }
      }
      check(ids == want, key + ":wrong-set", d + fmt(" time %.4f remove %d skip %d: %zu instead of %zu", x, rem, skip, ids.size(), want.size()));
      if (rem) for (auto i : want) m.erase(i);
      distinct(fmt("%s rem%d skip%d n%d of %d", key.c_str(), rem, skip, (int)want.size(), (int)m.size()));
      count("op:" + key + (rem ? ":remove" : "")); if (!want.empty()) count("op:" + key + ":nonempty");
    } else if (op == 9) { // one feature
      size_t id = idbase + r.i(0, nid);
      bool rem = r.p(0.3);
      if (r.p(0.5)) {
        FP f = db->get_feature(id, rem);
        check((f != nullptr) == (m.count(id) > 0), "get:presence", d);
        if (f && m.count(id)) { std::string why; check(same(*f, id, m[id], why), "get:content", d + why); if (rem) m.erase(id); count("op:get"); }
      } else {
        Feature f;
        f.to_delete = false;
        bool ok = db->get_feature_clone(id, f);
        check(ok == (m.count(id) > 0), "clone:presence", d);
        if (ok && m.count(id)) {
          std::string why;
          check(same(f, id, m[id], why), "clone:content", d + why);
          f.timestamps.clear(); f.uvs.clear(); f.uvs_norm.clear(); f.to_delete = true; // a copy must not reach back
          count("op:clone");
        }
      }
    } else if (op == 10) { // consumed features
      for (auto &f : m) if (r.p(0.3)) { FP p = db->get_feature(f.first); if (p) p->to_delete = true; f.second.del = true; }
      count("op:mark");
    } else if (op == 11) {
      db->cleanup();
      for (auto it = m.begin(); it != m.end();) { if (it->second.del) it = m.erase(it); else ++it; }
      count("op:cleanup");
    } else if (op == 12 || op == 13) {
      double x = qt();
      bool exact = op == 13;
      if (exact) db->cleanup_measurements_exact(x); else db->cleanup_measurements(x);
      for (auto it = m.begin(); it != m.end();) {
        for (auto &cc : it->second.cams) {
          std::vector<M> k;
          for (auto &y : cc.second) if (!(exact ? y.t == x : y.t <= x)) k.push_back(y);
          cc.second = k;
        }
        if (total(it->second) == 0) it = m.erase(it); else ++it;
      }
      count(exact ? "op:clean-exact" : "op:clean-older");
    } else if (op == 14) { // new measurements arrive through another database, as from a second tracker
      t += r.u(0.01, 0.3);
      times.push_back(t);
      Model add;
      auto src = std::make_shared<FeatureDatabase>();
      for (int k = 0; k < nid; k++) if (r.p(0.4)) for (int q = 0; q < ncam; q++) if (r.p(0.6)) {
        // it may already hold the newest stored measurements too: those must not be stored twice
        size_t id = idbase + k;
        if (m.count(id) && m[id].cams.count(q) && r.p(0.5)) for (auto &y : m[id].cams[q]) { src->update_feature(id, y.t, q, y.u, y.v, y.un, y.vn); add[id].cams[q].push_back(y); }
        addto(*src, add, id, t, q);
      }
      db->append_new_measurements(src);
      for (auto &f : add) for (auto &cc : f.second.cams) {
        bool had = m.count(f.first);
        auto &v = m[f.first].cams[cc.first];
        std::vector<M> old = had ? v : std::vector<M>();
        bool whole = old.empty() && !(had && db->get_feature(f.first)->timestamps.count(cc.first) && false);
        for (auto &y : cc.second) {
          bool dup = false;
          for (auto &o : old) dup = dup || o.t == y.t;
          if (!dup || whole) v.push_back(y);
        }
      }
      compare(*src, add, "append-source", d);
      count("op:append");
    } else { // cleaning one feature to given times
      double old = -1;
      for (auto &f : m) for (auto &cc : f.second.cams) if (!cc.second.empty() && (old == -1 || cc.second[0].t < old)) old = cc.second[0].t;
      check(db->get_oldest_timestamp() == old, "oldest", d);
      if (!m.empty()) {
        auto it = m.begin();
        std::advance(it, r.i(0, (int)m.size() - 1));
        FP p = db->get_feature(it->first);
        std::vector<double> ts;
        for (double y : times) if (r.p(0.5)) ts.push_back(y);
        int kind = r.i(0, 2);
        double x = qt();
        if (kind == 0) p->clean_old_measurements(ts);
        else if (kind == 1) p->clean_invalid_measurements(ts);
        else p->clean_older_measurements(x);
        for (auto &cc : it->second.cams) {
          std::vector<M> k;
          for (auto &y : cc.second) {
            bool in = std::find(ts.begin(), ts.end(), y.t) != ts.end();
            if (kind == 0 ? in : kind == 1 ? !in : y.t > x) k.push_back(y);
          }
          cc.second = k;
        }
        count("op:clean-feature");
      }
      // disparity between two frames
      if (times.size() > 1) {
        double a = times[r.i(0, (int)times.size() - 1)], b = times[r.i(0, (int)times.size() - 1)];
        std::vector<double> ds;
        bool dups = false;
        for (auto &f : m) if (!f.second.del) for (auto &cc : f.second.cams) {
          const M *pa = 0, *pb = 0;
          for (auto &y : cc.second) { if (y.t == a) { if (pa) dups = true; else pa = &y; } if (y.t == b) { if (pb) dups = true; else pb = &y; } }
          if (pa && pb) ds.push_back(std::hypot((double)(pb->u - pa->u), (double)(pb->v - pa->v)));
        }
        double mean = 1e9, var = 1e9;
        int n = -5;
        ov_core::FeatureHelper::compute_disparity(db, a, b, mean, var, n);
        if (!dups && ds.size() >= 2) {
          double mu = 0, v2 = 0;
          for (double y : ds) mu += y / ds.size();
          for (double y : ds) v2 += (y - mu) * (y - mu) / (ds.size() - 1);
          near(mean, mu, 1e-4 * (1 + mu), "disparity:mean", d); near(var, std::sqrt(v2), 1e-3 * (1 + mu), "disparity:deviation", d);
          check(n == (int)ds.size(), "disparity:count", d);
          count("op:disparity");
        } else if (!dups) { check(mean == -1 && var == -1 && n == 0, "disparity:none", d + fmt(" mean %.3f deviation %.3f count %d of %zu", mean, var, n, ds.size())); count("op:disparity-none"); }
      }
      // disparity over whole tracks, strictly inside a time range when one is given
      {
        double nw = r.p(0.4) ? -1 : qt(), ol = r.p(0.4) ? -1 : qt();
        std::vector<double> ds;
        for (auto &f : m) for (auto &cc : f.second.cams) {
          const M *pa = 0, *pb = 0;
          if (cc.second.size() < 2) continue;
          for (auto &y : cc.second) {
            if (!pa) { if (ol == -1 || y.t > ol) pa = &y; }
            else if (nw == -1 || y.t < nw) pb = &y;
          }
          if (pa && pb) ds.push_back(std::hypot((double)(pb->u - pa->u), (double)(pb->v - pa->v)));
        }
        double mean = 1e9, var = 1e9;
        int n = -5;
        ov_core::FeatureHelper::compute_disparity(db, mean, var, n, nw, ol);
        if (ds.size() >= 2) {
          double mu = 0, v2 = 0;
          for (double y : ds) mu += y / ds.size();
          for (double y : ds) v2 += (y - mu) * (y - mu) / (ds.size() - 1);
          near(mean, mu, 1e-4 * (1 + mu), "disparity-all:mean", d); near(var, std::sqrt(v2), 1e-3 * (1 + mu), "disparity-all:deviation", d);
          check(n == (int)ds.size(), "disparity-all:count", d);
          count("op:disparity-all");
        } else check(mean == -1 && var == -1 && n == 0, "disparity-all:none", d + fmt(" mean %.3f deviation %.3f count %d of %zu", mean, var, n, ds.size()));
      }
    }
    compare(*db, m, "state", d + fmt(" op %d", op));
  }
}
/// writers own a camera each and write the same features; removers and cleaners compete. Afterwards every measurement is accounted for once.
static void concurrent(long c, Rng &r) {
  FeatureDatabase db;
  int W = r.i(1, 4), nid = r.i(1, 30), T = r.i(20, 120);
  std::atomic<int> running(W);
  std::atomic<long> maxclean(0);
  std::vector<std::vector<FP>> removed(3);
  std::vector<std::vector<long>> exacts(1);
  std::vector<uint64_t> seeds;
  for (int i = 0; i < 12; i++) seeds.push_back(r.g());
  std::atomic<int> go(0);
  std::vector<std::thread> th;
  auto enc = [](size_t id, size_t cam, long t) { return std::make_pair((float)(id * 8 + cam), (float)t); };
  for (int w = 0; w < W; w++) th.emplace_back([&, w] {
    Rng q(seeds[w]);
    go++; while (go < W) std::this_thread::yield();
    for (long t = 1; t <= T; t++) {
      for (int k = 0; k < nid; k++) { auto e = enc(k, w, t); db.update_feature(k, (double)t, w, e.first, e.second, -e.first, -e.second); }
      if (q.p(0.1)) std::this_thread::yield();
    }
    running--;
  });
  auto alive = [&] { return running > 0; };
  auto remember = [&](int slot, const std::vector<FP> &v) { for (auto &f : v) removed[slot].push_back(f); };
  th.emplace_back([&] { Rng q(seeds[8]); while (alive()) { remember(0, db.features_containing_older((double)q.i(1, T), true)); if (q.p(0.7)) usleep(q.i(1, 300)); } });
  th.emplace_back([&] { Rng q(seeds[9]); while (alive()) { FP f = db.get_feature(q.i(0, nid), true); if (f) removed[1].push_back(f); if (q.p(0.5)) usleep(q.i(1, 100)); if (q.p(0.2)) remember(1, db.features_containing((double)q.i(1, T), true)); } });
  th.emplace_back([&] {
    Rng q(seeds[10]);
    while (alive()) {
      int k = q.i(0, 3);
      if (k == 0) { long x = q.i(0, T / 3); long p = maxclean; while (x > p && !maxclean.compare_exchange_weak(p, x)) {} db.cleanup_measurements((double)x); }
      else if (k == 1) { long x = q.i(1, T); exacts[0].push_back(x); db.cleanup_measurements_exact((double)x); }
      else if (k == 2) db.cleanup();
      else check(db.size() <= (size_t)nid, "concurrent:size");
      if (q.p(0.7)) usleep(q.i(1, 300));
    }
  });
  th.emplace_back([&] {
    Rng q(seeds[11]);
    long seen = 0;
    while (alive()) {
      Feature f;
      f.to_delete = false;
      size_t id = q.i(0, nid);
      if (db.get_feature_clone(id, f)) {
        seen++;
        check(f.featid == id, "concurrent:clone-id");
        for (auto &p : f.timestamps) {
          auto &u = f.uvs[p.first];
          auto &n = f.uvs_norm[p.first];
          if (!check(u.size() == p.second.size() && n.size() == u.size(), "concurrent:torn-copy")) continue;
          for (size_t i = 0; i < u.size(); i++) {
            auto e = enc(id, p.first, (long)p.second[i]);
            if (!(u[i](0) == e.first && u[i](1) == e.second && n[i](0) == -e.first && n[i](1) == -e.second && (i == 0 || p.second[i] > p.second[i - 1]))) { check(false, "concurrent:mixed-copy"); break; }
          }
        }
      }
      double o = db.get_oldest_timestamp();
      check(o == -1 || (o >= 1 && o <= T), "concurrent:oldest");
      for (auto &g : db.features_not_containing_newer((double)T + 1)) check(g->featid < (size_t)nid, "concurrent:query-id");
    }
    count("concurrent:copies", seen);
  });
  for (auto &x : th) x.join();
  // account for every measurement
  std::map<std::pair<size_t, size_t>, std::map<long, int>> got;
  auto take = [&](const Feature &f) {
    for (auto &p : f.timestamps) {
      auto &u = f.uvs.at(p.first);
      auto &n = f.uvs_norm.at(p.first);
      if (!check(u.size() == p.second.size() && n.size() == p.second.size(), "concurrent:torn")) continue;
      for (size_t i = 0; i < u.size(); i++) {
        auto e = enc(f.featid, p.first, (long)p.second[i]);
        check(u[i](0) == e.first && u[i](1) == e.second && n[i](0) == -e.first && n[i](1) == -e.second, "concurrent:mixed");
        check(i == 0 || p.second[i] > p.second[i - 1], "concurrent:order");
        got[{f.featid, p.first}][(long)p.second[i]]++;
      }
    }
  };
  long nrem = 0;
  std::set<Feature *> uniq;
  for (auto &v : removed) for (auto &f : v) { check(uniq.insert(f.get()).second, "concurrent:removed-twice"); take(*f); nrem++; }
  for (auto &p : db.get_internal_data()) { check(!uniq.count(p.second.get()), "concurrent:removed-and-kept"); take(*p.second); }
  std::set<long> ex(exacts[0].begin(), exacts[0].end());
  long lost = 0;
  for (int k = 0; k < nid; k++) for (int w = 0; w < W; w++) {
    auto &g = got[{k, w}];
    for (long t = 1; t <= T; t++) {
      int n = g.count(t) ? g[t] : 0;
      if (n == 0 && !(t <= maxclean || ex.count(t))) lost++;
      if (n > 1) check(false, "concurrent:duplicated", fmt("feature %d camera %d time %ld", k, w, t));
    }
  }
  check(lost == 0, "concurrent:lost", fmt("%ld of %d measurements neither stored, returned nor cleaned", lost, nid * W * T));
  count("concurrent:removed", nrem);
  count("concurrent:measurements", (long)nid * W * T);
  distinct(fmt("conc W%d n%d rem%d", W, nid / 4, (int)std::log2(nrem + 1)));
}
int main(int argc, char **argv) {
  vh::init(argc, argv);
  ov_core::Printer::setPrintLevel("SILENT");
  bool conc = ctx().a.mode == "concurrent", th = ctx().a.thorough();
  run_cases(conc ? (th ? 4000 : 320) : (th ? 60000 : 2400), [&](long c, Rng &r) { if (conc) concurrent(c, r); else sequential(c, r); });
  return finish();
}
