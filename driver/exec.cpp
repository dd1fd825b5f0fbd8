// Script interpreter: executes operation scripts against the library through its public API and
// writes one JSON event per operation: operation, arguments, result, exception, and every live
// object whose observable state differs from what it was before ("c").
#include "json.hpp"
#include <csignal>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <unistd.h>

#include "DynamicObstacleAvoidance/Agent.hpp"
#include "DynamicObstacleAvoidance/Environment.hpp"
#include "DynamicObstacleAvoidance/Exceptions/ObstacleAlreadyExistsException.hpp"
#include "DynamicObstacleAvoidance/Exceptions/ObstacleNotInEnvironmentException.hpp"
#include "DynamicObstacleAvoidance/Modulation.hpp"
#include "DynamicObstacleAvoidance/Obstacle/Aggregate.hpp"
#include "DynamicObstacleAvoidance/Obstacle/Ellipsoid.hpp"
#include "DynamicObstacleAvoidance/Obstacle/Obstacle.hpp"
#include "DynamicObstacleAvoidance/Obstacle/StarShapeHull.hpp"
#include "DynamicObstacleAvoidance/State/Pose.hpp"
#include "DynamicObstacleAvoidance/State/State.hpp"
#include "DynamicObstacleAvoidance/Utils/MathTools.hpp"
#include "DynamicObstacleAvoidance/Utils/ObstacleGeneration/Aggregation.hpp"
#include "DynamicObstacleAvoidance/Utils/Plotting/PlottingTools.hpp"

using namespace DynamicObstacleAvoidance;
using Eigen::Array3d;
using Eigen::Matrix3d;
using Eigen::Quaterniond;
using Eigen::Vector3d;
typedef std::shared_ptr<Obstacle> OP;
typedef std::deque<OP> OL;

// ---------------------------------------------------------------- output and crash reports
static std::string OUT;
static const char* OUTFILE = nullptr;
static std::string CUR;  // text of the operation being executed
static void flush_out() {
  FILE* f = fopen(OUTFILE, "ab");
  if (f) { fwrite(OUT.data(), 1, OUT.size(), f); fclose(f); }
  OUT.clear();
}
static void on_signal(int sig) {
  const char* why = sig == SIGALRM ? "hang" : sig == SIGABRT ? "abort" : sig == SIGFPE ? "fpe" : "segv";
  OUT += "{\"op\":\"crash\",\"a\":{\"why\":\"";
  OUT += why;
  OUT += "\",\"cur\":\"";
  OUT += CUR;
  OUT += "\"},\"r\":\"\",\"x\":\"crash\",\"c\":[]}\n";
  flush_out();
  _exit(3);
}

// ---------------------------------------------------------------- conversions
template <class V> static J jv(const V& v) {
  J r = J::arr();
  for (int i = 0; i < v.size(); ++i) r.push(J((double)v(i)));
  return r;
}
static J jq(const Quaterniond& q) {
  J r = J::arr();
  return r.push(J(q.w())).push(J(q.x())).push(J(q.y())).push(J(q.z()));
}
template <class M> static J jcols(const M& m) {
  J r = J::arr();
  for (int i = 0; i < m.cols(); ++i) r.push(jv(m.col(i).eval()));
  return r;
}
static Vector3d vec(const J& j) { return Vector3d(j.a.at(0).num(), j.a.at(1).num(), j.a.at(2).num()); }
static Array3d arr3(const J& j) { return Array3d(j.a.at(0).num(), j.a.at(1).num(), j.a.at(2).num()); }
static Quaterniond quat(const J& j) {
  return Quaterniond(j.a.at(0).num(), j.a.at(1).num(), j.a.at(2).num(), j.a.at(3).num());
}
static Eigen::ArrayXd arrx(const J& j) {
  Eigen::ArrayXd r(j.a.size());
  for (size_t i = 0; i < j.a.size(); ++i) r((int)i) = j.a[i].num();
  return r;
}

// ---------------------------------------------------------------- object table
static std::map<std::string, Pose> poses;
static std::map<std::string, State> states;
// an obstacle the driver holds on to, or only looks at once "o.release" has left it to the code under test
struct Held {
  OP strong;
  std::weak_ptr<Obstacle> weak;
  OP get() const { return strong ? strong : weak.lock(); }
};
static std::map<std::string, Held> obs;
static std::set<std::string> left;
static bool owner = true;  // new objects the code hands out are held on to
static std::map<std::string, std::shared_ptr<Agent>> agents;
static std::map<std::string, std::shared_ptr<Environment>> envs;
static std::map<const Obstacle*, std::string> names_of;  // identity -> handle
static std::map<std::string, std::string> last;          // handle -> last observed state
static std::map<std::string, Vector3d> regs;
static std::vector<std::string> pool;  // registry names to look up after each operation
static int fresh = 0;
static bool probe_map = true, probe_hull = true;
static const double BEARINGS[10] = {-3.1405, -2.91, -2.11, -1.37, -0.52, 0.23, 1.02, 1.77, 2.63, 3.1405};

static std::string handle_of(const OP& p) {
  if (!p) return "null";
  auto it = names_of.find(p.get());
  if (it != names_of.end() && obs.count(it->second) && obs[it->second].get() == p) return it->second;
  std::string h = "g" + std::to_string(++fresh);
  names_of[p.get()] = h;
  obs[h] = Held{owner ? p : OP(), p};
  return h;
}
static J jlist(const OL& l) {
  J r = J::arr();
  for (auto& o : l) r.push(J(handle_of(o)));
  return r;
}
static OP ob(const std::string& h) {
  auto it = obs.find(h);
  OP o = it == obs.end() ? OP() : it->second.get();
  if (!o && left.count(h)) throw std::runtime_error("the object is gone: " + h);
  if (!o) throw std::logic_error("script: no obstacle " + h);
  return o;
}
static Agent& ag(const std::string& h) {
  auto it = agents.find(h);
  if (it == agents.end()) throw std::logic_error("script: no agent " + h);
  return *it->second;
}
static Environment& en(const std::string& h) {
  auto it = envs.find(h);
  if (it == envs.end()) throw std::logic_error("script: no environment " + h);
  return *it->second;
}
static OL olist(const J& j) {
  if (j.t == J::STR) return en(j.s).get_obstacle_list();
  OL l;
  for (auto& x : j.a) l.push_back(ob(x.s));
  return l;
}
static std::shared_ptr<Ellipsoid> ell(const std::string& h) {
  auto e = std::dynamic_pointer_cast<Ellipsoid>(ob(h));
  if (!e) throw std::logic_error("script: not an ellipsoid: " + h);
  return e;
}
static std::shared_ptr<Aggregate> agg(const std::string& h) {
  auto e = std::dynamic_pointer_cast<Aggregate>(ob(h));
  if (!e) throw std::logic_error("script: not an aggregate: " + h);
  return e;
}
static std::shared_ptr<StarShapeHull> hull(const std::string& h) {
  auto e = std::dynamic_pointer_cast<StarShapeHull>(ob(h));
  if (!e) throw std::logic_error("script: not a hull: " + h);
  return e;
}

// ---------------------------------------------------------------- observable state
static J proj_obs(const Obstacle& o) {
  J r = J::obj();
  r.set("k", "obs").set("type", o.get_type()).set("name", o.get_name());
  r.set("pos", jv(o.get_position())).set("ori", jq(o.get_orientation()));
  r.set("lin", jv(o.get_linear_velocity())).set("ang", jv(o.get_angular_velocity()));
  r.set("ref", jv(o.get_reference_position())).set("marg", jv(o.get_safety_margin()));
  if (auto e = dynamic_cast<const Ellipsoid*>(&o)) {
    r.set("axis", jv(e->get_axis_lengths())).set("curv", jv(e->get_curvature_factor()));
    J s = J::arr();
    for (unsigned i = 0; i < 3; ++i) s.push(J(e->get_axis_lengths(i)));
    for (unsigned i = 0; i < 3; ++i) s.push(J(e->get_curvature_factor(i)));
    r.set("idx", s);
  }
  // the state and pose getters must agree with the field getters
  const State& st = o.get_state();
  bool same = st.get_position() == o.get_position() && st.get_orientation().coeffs() == o.get_orientation().coeffs() &&
              st.get_linear_velocity() == o.get_linear_velocity() && st.get_angular_velocity() == o.get_angular_velocity() &&
              o.get_pose().get_position() == o.get_position() && o.get_pose().get_orientation().coeffs() == o.get_orientation().coeffs();
  r.set("same", J(same));
  if (auto g = dynamic_cast<const Aggregate*>(&o)) {
    J m = J::arr();
    for (auto& p : g->get_primitives()) m.push(J(handle_of(p)));
    r.set("mem", m);
    J in = J::arr(), out = J::arr();
    if (probe_hull && !g->get_primitives().empty()) {
      for (double b : BEARINGS) {
        Vector3d u(cos(b), sin(b), 0);
        out.push(J(1e4 / o.compute_distance_to_point(o.get_reference_position() + 1e4 * u)));
        in.push(J(1e-3 * o.compute_distance_to_point(o.get_reference_position() + 1e-3 * u)));
      }
    }
    r.set("outer", out).set("inner", in);
  }
  return r;
}
static J proj_agent(const Agent& a) {
  J r = J::obj();
  r.set("k", "agent").set("pos", jv(a.get_position())).set("ori", jq(a.get_orientation()));
  r.set("lin", jv(a.get_linear_velocity())).set("ang", jv(a.get_angular_velocity()));
  r.set("sm", J(a.get_safety_margin()));
  const State st = a.get_state();
  bool same = st.get_position() == a.get_position() && st.get_orientation().coeffs() == a.get_orientation().coeffs() &&
              st.get_linear_velocity() == a.get_linear_velocity() && st.get_angular_velocity() == a.get_angular_velocity() &&
              a.get_pose().get_position() == a.get_position() && a.get_pose().get_orientation().coeffs() == a.get_orientation().coeffs();
  r.set("same", J(same));
  r.set("env", proj_obs(a.get_envelope()));
  return r;
}
static J proj_env(Environment& e) {
  J r = J::obj();
  r.set("k", "env").set("agg", J(e.is_aggregated())).set("list", jlist(e.get_obstacle_list()));
  J m = J::arr();
  if (probe_map)
    for (auto& n : pool) {
      std::string v = "absent";
      try { v = handle_of(e[n]); }
      catch (Exceptions::ObstacleNotInEnvironmentException&) {}
      catch (std::exception&) { v = "error"; }
      m.push(J(v));
    }
  r.set("map", m);
  return r;
}
static J proj_pose(const Pose& p) {
  J r = J::obj();
  return r.set("k", "pose").set("pos", jv(p.get_position())).set("ori", jq(p.get_orientation()));
}
static J proj_state(const State& s) {
  J r = J::obj();
  return r.set("k", "state").set("pos", jv(s.get_position())).set("ori", jq(s.get_orientation()))
      .set("lin", jv(s.get_linear_velocity())).set("ang", jv(s.get_angular_velocity()))
      .set("same", J(s.get_pose().get_position() == s.get_position() && s.get_pose().get_orientation().coeffs() == s.get_orientation().coeffs()));
}
static void diff(std::string& out, bool& first, const std::string& h, const std::string& now) {
  auto it = last.find(h);
  if (it != last.end() && it->second == now) return;
  last[h] = now;
  if (!first) out += ',';
  first = false;
  out += "[\"" + h + "\"," + now + "]";
}
static std::vector<std::string> gone;  // objects left to the code under test that exist no longer
static std::string changes() {
  std::string out = "[";
  bool first = true;
  for (auto& e : envs) diff(out, first, e.first, proj_env(*e.second).dump());  // first: may name new objects
  std::vector<std::string> hs;
  for (auto& o : obs) hs.push_back(o.first);
  for (auto& h : hs)
    if (OP o = obs[h].get()) diff(out, first, h, proj_obs(*o).dump());
    else { gone.push_back(h); obs.erase(h); }
  for (auto& a : agents) diff(out, first, a.first, proj_agent(*a.second).dump());
  for (auto& p : poses) diff(out, first, p.first, proj_pose(p.second).dump());
  for (auto& s : states) diff(out, first, s.first, proj_state(s.second).dump());
  return out + "]";
}

// ---------------------------------------------------------------- printed text and plotting calls
static J text_lines(const std::string& text) {
  J r = J::arr();
  std::istringstream is(text);
  std::string line;
  while (std::getline(is, line)) {
    J j = J::obj();
    j.set("s", J(line));
    size_t c = line.find(": ");
    std::string rest = c == std::string::npos ? std::string() : line.substr(c + 2);
    j.set("l", J(c == std::string::npos ? line : line.substr(0, c)));
    J n = J::arr();
    const char* p = rest.c_str();
    while (*p) {
      char* e;
      if ((*p >= '0' && *p <= '9') || *p == '-' || *p == '.') {
        double d = strtod(p, &e);
        if (e != p) { n.push(J(d)); p = e; continue; }
      }
      ++p;
    }
    j.set("n", n);
    r.push(j);
  }
  return r;
}
static J drain_plots() {
  // the recording stand-in for matplotlib appends its calls to this file
  const char* f = getenv("DOA_PLOTLOG");
  J r = J::arr();
  if (!f) return r;
  std::ifstream is(f);
  std::string line;
  while (std::getline(is, line)) if (!line.empty()) r.push(JParser(line.c_str()).parse());
  is.close();
  std::ofstream(f, std::ios::trunc);
  return r;
}

// ---------------------------------------------------------------- operations
static J basis_j(const Matrix3d& m) { return jcols(m); }
struct Margin { bool none, scalar; double m; Array3d m3; };
static Margin margin_of(const J& j) {
  Margin r{true, true, 0, Array3d::Zero()};
  if (j.has("m")) { r.none = false; r.m = j.num("m"); }
  if (j.has("m3")) { r.none = false; r.scalar = false; r.m3 = arr3(j.at("m3")); }
  return r;
}
template <class T> static std::shared_ptr<T> make_obstacle(const J& j) {
  Margin g = margin_of(j);
  const std::string k = j.str("kind");
  const std::string n = j.has("name") ? j.str("name") : std::string();
  if (k == "name") {
    if (g.none) return std::make_shared<T>(n);
    if (g.scalar) return std::make_shared<T>(n, g.m);
    return std::make_shared<T>(n, g.m3);
  }
  if (k == "xyz") {
    Vector3d v = vec(j.at("v"));
    if (g.none) return std::make_shared<T>(n, v(0), v(1), v(2));
    if (g.scalar) return std::make_shared<T>(n, v(0), v(1), v(2), g.m);
    return std::make_shared<T>(n, v(0), v(1), v(2), g.m3);
  }
  const State& s = states.at(j.str("s"));
  if (k == "state") {
    if (g.none) return std::make_shared<T>(n, s);
    if (g.scalar) return std::make_shared<T>(n, s, g.m);
    return std::make_shared<T>(n, s, g.m3);
  }
  Vector3d ref = vec(j.at("ref"));
  if (g.none) return std::make_shared<T>(n, s, ref);
  if (g.scalar) return std::make_shared<T>(n, s, ref, g.m);
  return std::make_shared<T>(n, s, ref, g.m3);
}
static void put(const std::string& h, const OP& o) {
  obs[h] = Held{o, o};
  names_of[o.get()] = h;
}
static void emit(const J& j, const J& r, const std::string& x) {
  J a = J::obj();
  for (auto& p : j.o) if (p.first != "op") a.o.push_back(p);
  OUT += "{\"op\":\"" + j.str("op") + "\",\"a\":";
  a.write(OUT);
  OUT += ",\"r\":";
  r.write(OUT);
  OUT += ",\"x\":\"" + x + "\",\"c\":";
  gone.clear();
  OUT += changes();
  for (size_t i = 0; i < gone.size(); ++i) OUT += (i ? ",\"" : ",\"g\":[\"") + gone[i] + "\"";
  OUT += gone.empty() ? "}\n" : "]}\n";
  if (OUT.size() > (1u << 22)) flush_out();
}
static void run(const J& j);

static J exec(const J& j) {
  const std::string op = j.str("op");
  const std::string h = j.has("h") ? j.str("h") : std::string();
  J none;
  // ---- poses
  if (op == "pose.new") {
    const std::string k = j.str("kind");
    auto store = [&](const Pose& p) { poses.erase(h); poses.emplace(h, p); };
    if (k == "def") store(Pose());
    else if (k == "pos") store(Pose(vec(j.at("v"))));
    else if (k == "pq") store(Pose(vec(j.at("v")), quat(j.at("q"))));
    else if (k == "xyz") { Vector3d v = vec(j.at("v")); store(Pose(v(0), v(1), v(2))); }
    else if (k == "xyzq") {
      Vector3d v = vec(j.at("v"));
      const J& q = j.at("q");
      store(Pose(v(0), v(1), v(2), q.a[0].num(), q.a[1].num(), q.a[2].num(), q.a[3].num()));
    }
    else store(Pose(poses.at(j.str("s"))));
    return none;
  }
  if (op == "pose.set_position") { poses.at(h).set_position(vec(j.at("v"))); return none; }
  if (op == "pose.set_position3") { Vector3d v = vec(j.at("v")); poses.at(h).set_position(v(0), v(1), v(2)); return none; }
  if (op == "pose.set_orientation") { poses.at(h).set_orientation(quat(j.at("q"))); return none; }
  if (op == "pose.mulassign") {
    Pose& p = poses.at(h);
    p *= poses.at(j.str("s"));
    return none;
  }
  if (op == "pose.mul") {
    Pose r = poses.at(j.str("s")) * poses.at(j.str("t"));
    poses.erase(h);
    poses.emplace(h, r);
    return none;
  }
  if (op == "pose.inv") {
    Pose r = poses.at(j.str("s")).inverse();
    poses.erase(h);
    poses.emplace(h, r);
    return none;
  }
  if (op == "pose.apply") return jv(Vector3d(poses.at(h) * vec(j.at("v"))));
  if (op == "pose.print") { std::ostringstream os; os << poses.at(h); return text_lines(os.str()); }
  // ---- states
  if (op == "state.new") {
    const std::string k = j.str("kind");
    auto store = [&](const State& s) { states.erase(h); states.emplace(h, s); };
    if (k == "def") store(State());
    else if (k == "pose") store(State(poses.at(j.str("p"))));
    else if (k == "xyz") { Vector3d v = vec(j.at("v")); store(State(v(0), v(1), v(2))); }
    else if (k == "pos") store(State(vec(j.at("v"))));
    else if (k == "pq") store(State(vec(j.at("v")), quat(j.at("q"))));
    else if (k == "full") store(State(vec(j.at("v")), quat(j.at("q")), vec(j.at("lin")), vec(j.at("ang"))));
    else store(State(states.at(j.str("s"))));
    return none;
  }
  if (op == "state.set_pose") { states.at(h).set_pose(poses.at(j.str("p"))); return none; }
  if (op == "state.set_position") { states.at(h).set_position(vec(j.at("v"))); return none; }
  if (op == "state.set_position3") { Vector3d v = vec(j.at("v")); states.at(h).set_position(v(0), v(1), v(2)); return none; }
  if (op == "state.set_orientation") { states.at(h).set_orientation(quat(j.at("q"))); return none; }
  if (op == "state.set_lin") { states.at(h).set_linear_velocity(vec(j.at("v"))); return none; }
  if (op == "state.set_ang") { states.at(h).set_angular_velocity(vec(j.at("v"))); return none; }
  if (op == "state.print") { std::ostringstream os; os << states.at(h); return text_lines(os.str()); }
  // ---- obstacles
  if (op == "o.release") { obs.at(h).strong.reset(); left.insert(h); owner = false; return none; }
  if (op == "obs.new") { put(h, make_obstacle<Obstacle>(j)); return none; }
  if (op == "ell.new") {
    if (j.str("kind") == "copy") put(h, std::make_shared<Ellipsoid>(*ell(j.str("src"))));
    else put(h, make_obstacle<Ellipsoid>(j));
    return none;
  }
  if (op == "hull.new") {
    bool inside = j.has("inside") ? j.flag("inside") : false;
    unsigned res = j.has("res") ? (unsigned)j.at("res").i : 500;
    double mr = j.has("minr") ? j.num("minr") : 0.5;
    if (j.has("mem")) put(h, std::make_shared<StarShapeHull>(olist(j.at("mem")), inside, res, mr));
    else put(h, std::make_shared<StarShapeHull>(inside, res, mr));
    return none;
  }
  if (op == "hull.compute") {
    if (j.has("ref")) hull(h)->compute_from_primitives(olist(j.at("mem")), vec(j.at("ref")));
    else hull(h)->compute_from_primitives(olist(j.at("mem")));
    return none;
  }
  if (op == "hull.set_res") { hull(h)->set_resolution((unsigned)j.at("res").i); return none; }
  if (op == "agg.new") {
    if (j.has("mem")) put(h, std::make_shared<Aggregate>(olist(j.at("mem"))));
    else put(h, std::make_shared<Aggregate>());
    return none;
  }
  if (op == "agg.add") {
    if (j.has("upd")) agg(h)->add_primitive(ob(j.str("o")), j.flag("upd"));
    else agg(h)->add_primitive(ob(j.str("o")));
    return none;
  }
  if (op == "agg.update_hull") { agg(h)->update_hull(); return none; }
  if (op == "o.set_name") { ob(h)->set_name(j.str("name")); return none; }
  if (op == "o.set_pose") { ob(h)->set_pose(poses.at(j.str("p"))); return none; }
  if (op == "o.set_position") { ob(h)->set_position(vec(j.at("v"))); return none; }
  if (op == "o.set_position3") { Vector3d v = vec(j.at("v")); ob(h)->set_position(v(0), v(1), v(2)); return none; }
  if (op == "o.set_orientation") { ob(h)->set_orientation(quat(j.at("q"))); return none; }
  if (op == "o.set_lin") { ob(h)->set_linear_velocity(vec(j.at("v"))); return none; }
  if (op == "o.set_ang") { ob(h)->set_angular_velocity(vec(j.at("v"))); return none; }
  if (op == "o.set_ref") { ob(h)->set_reference_position(vec(j.at("v"))); return none; }
  if (op == "o.set_axis") { ell(h)->set_axis_lengths(arr3(j.at("v"))); return none; }
  if (op == "o.set_curv") { ell(h)->set_curvature_factor(arr3(j.at("v"))); return none; }
  if (op == "o.shift") { ob(h)->shift_reference_point(ag(j.str("a"))); return none; }
  if (op == "q.dist") {
    Margin g = margin_of(j);
    OP o = ob(h);
    Vector3d v = vec(j.at("v"));
    if (g.none) return J(o->compute_distance_to_point(v));
    if (g.scalar) return J(o->compute_distance_to_point(v, g.m));
    return J(o->compute_distance_to_point(v, g.m3));
  }
  if (op == "q.dist_agent") return J(ob(h)->compute_distance_to_agent(ag(j.str("a"))));
  if (op == "q.normal") return jv(ob(h)->compute_normal_to_agent(ag(j.str("a"))));
  if (op == "q.inside") return J(ob(h)->point_is_inside(vec(j.at("v"))));
  if (op == "q.sample") return jcols(ob(h)->sample_from_parameterization((unsigned)j.at("n").i, j.flag("sm")));
  if (op == "q.chord") {
    auto r = ob(h)->compute_interesection_points(vec(j.at("v")), vec(j.at("w")));
    return J::arr().push(J(r.first)).push(jv(r.second.first)).push(jv(r.second.second));
  }
  if (op == "q.inter") return J(ob(h)->is_intersecting(*ob(j.str("o"))));
  if (op == "q.interlist") return J(ob(h)->is_intersecting(olist(j.at("l"))));
  if (op == "q.repf") return J(j.has("f") ? ob(h)->get_repulsion_factor(ag(j.str("a")), j.num("f")) : ob(h)->get_repulsion_factor(ag(j.str("a"))));
  if (op == "q.repv") return jv(ob(h)->compute_repulsion_vector(ag(j.str("a"))));
  if (op == "q.genrep") return jv(j.has("t") ? ob(h)->generate_repulsion(ag(j.str("a")), j.num("t")) : ob(h)->generate_repulsion(ag(j.str("a"))));
  if (op == "q.closed") return J(ob(h)->is_closed());
  if (op == "q.area") return J(j.has("sm") ? ell(h)->area(j.flag("sm")) : ell(h)->area());
  if (op == "q.print") { std::ostringstream os; os << *ob(h); return text_lines(os.str()); }
  if (op == "q.agentq") {  // the queries the modulation is built from, for reference
    OP o = ob(h);
    return J::arr().push(J(o->compute_distance_to_agent(ag(j.str("a"))))).push(jv(o->compute_normal_to_agent(ag(j.str("a"))))).push(J(o->point_is_inside(ag(j.str("a")).get_position())));
  }
  // ---- agents
  if (op == "agent.new") {
    const std::string k = j.str("kind");
    std::shared_ptr<Agent> a;
    if (k == "def") a = j.has("m") ? std::make_shared<Agent>(j.num("m")) : std::make_shared<Agent>();
    else if (k == "state") a = j.has("m") ? std::make_shared<Agent>(states.at(j.str("s")), j.num("m")) : std::make_shared<Agent>(states.at(j.str("s")));
    else a = std::make_shared<Agent>(ag(j.str("src")));
    agents[h] = a;
    return none;
  }
  if (op == "agent.assign") { Agent& d = ag(h); d = ag(j.str("src")); return none; }
  if (op == "agent.drop") { agents.erase(h); last.erase(h); return none; }
  if (op == "agent.set_margin") { ag(h).set_safety_margin(j.num("m")); return none; }
  if (op == "agent.set_pose") { ag(h).set_pose(poses.at(j.str("p"))); return none; }
  if (op == "agent.set_position") { ag(h).set_position(vec(j.at("v"))); return none; }
  if (op == "agent.set_orientation") { ag(h).set_orientation(quat(j.at("q"))); return none; }
  if (op == "agent.set_lin") { ag(h).set_linear_velocity(vec(j.at("v"))); return none; }
  if (op == "agent.set_ang") { ag(h).set_angular_velocity(vec(j.at("v"))); return none; }
  if (op == "agent.transform") { ag(h).transform(poses.at(j.str("p"))); return none; }
  if (op == "agent.transformed") { agents[h] = std::make_shared<Agent>(ag(j.str("src")).transformed(poses.at(j.str("p")))); return none; }
  if (op == "agent.in_obs") return J(ag(h).in_obstacle(*ob(j.str("o"))));
  if (op == "agent.path") return J(ag(h).exist_path(vec(j.at("v")), olist(j.at("l"))));
  if (op == "agent.env_inter") return J(ag(h).get_envelope().is_intersecting(olist(j.at("l"))));
  if (op == "agent.print") { std::ostringstream os; os << ag(h); return text_lines(os.str()); }
  // ---- environments
  if (op == "env.new") { envs[h] = j.has("agg") ? std::make_shared<Environment>(j.flag("agg")) : std::make_shared<Environment>(); return none; }
  if (op == "env.copy") { envs[h] = std::make_shared<Environment>(en(j.str("src"))); return none; }
  if (op == "env.add") { en(h).add_obstacle(ob(j.str("o"))); return none; }
  if (op == "env.remove") { en(h).remove_obstacle(j.str("name")); return none; }
  if (op == "env.get") {
    auto& first = en(h)[j.str("name")];
    if (j.has("also")) en(h)[j.str("also")];  // what was found stays what it is while others are looked up
    return J(handle_of(first));
  }
  if (op == "env.set_agg") { en(h).set_aggregated(j.flag("v")); return none; }
  if (op == "env.update") { en(h).update(); return none; }
  if (op == "env.clone_updated") {  // a fresh environment holding copies of the registered ellipsoids, updated
    auto e = std::make_shared<Environment>(en(j.str("src")).is_aggregated());
    for (auto& m : j.at("copies").a) {
      auto c = std::make_shared<Ellipsoid>(*ell(m.a[0].s));
      put(m.a[1].s, c);
      e->add_obstacle(c);
    }
    envs[h] = e;
    e->update();
    return none;
  }
  if (op == "aggr") { owner = true; return jlist(Aggregation::aggregate_obstacles(olist(j.at("l")))); }
  // ---- modulation
  if (op == "mod.weights") return jv(Modulation::weight_obstacles(arrx(j.at("d")), j.num("crit"), j.num("pow")));
  if (op == "mod.eig") {
    auto e = j.has("f") ? Modulation::compute_diagonal_eigenvalues(j.num("d"), j.num("f")) : Modulation::compute_diagonal_eigenvalues(j.num("d"));
    return jv(e.diagonal());
  }
  if (op == "mod.basis") {
    OP o = ob(j.str("o"));
    auto r = Modulation::compute_basis_matrices(o->compute_normal_to_agent(ag(j.str("a"))), ag(j.str("a")), *o);
    J n = jv(o->compute_normal_to_agent(ag(j.str("a"))));
    return J::arr().push(basis_j(r.first)).push(basis_j(r.second)).push(n);
  }
  if (op == "mod.matrix") {
    OP o = ob(j.str("o"));
    auto r = Modulation::compute_modulation_matrix(ag(j.str("a")), *o);
    return J::arr().push(basis_j(std::get<0>(r))).push(basis_j(std::get<1>(r))).push(J(std::get<2>(r))).push(jv(o->compute_normal_to_agent(ag(j.str("a")))));
  }
  if (op == "mod.relvel") {
    OL l = olist(j.at("l"));
    std::deque<Matrix3d> b;
    for (auto& o : l) b.push_back(std::get<1>(Modulation::compute_modulation_matrix(ag(j.str("a")), *o)));
    auto r = Modulation::compute_relative_velocities(ag(j.str("a")), l, arrx(j.at("d")), arrx(j.at("w")), b);
    return J::arr().push(jv(r.first)).push(jv(r.second));
  }
  if (op == "mod.vel") {
    const Agent& a = ag(j.str("a"));
    const Environment& e = en(j.str("e"));
    // defaulted arguments are left out from the right, as a caller would
    Vector3d v;
    if (j.has("pow")) v = Modulation::modulate_velocity(a, e, j.flag("local"), j.flag("rep"), j.flag("planar"), j.num("crit"), j.num("pow"));
    else if (j.has("crit")) v = Modulation::modulate_velocity(a, e, j.flag("local"), j.flag("rep"), j.flag("planar"), j.num("crit"));
    else if (j.has("planar")) v = Modulation::modulate_velocity(a, e, j.flag("local"), j.flag("rep"), j.flag("planar"));
    else if (j.has("rep")) v = Modulation::modulate_velocity(a, e, j.flag("local"), j.flag("rep"));
    else if (j.has("local")) v = Modulation::modulate_velocity(a, e, j.flag("local"));
    else v = Modulation::modulate_velocity(a, e);
    if (j.has("reg")) regs[j.str("reg")] = v;
    J aux = J::arr();
    for (auto& o : e.get_obstacle_list())
      aux.push(J::arr().push(J(o->compute_distance_to_agent(a))).push(jv(o->compute_normal_to_agent(a))).push(J(o->point_is_inside(a.get_position()))));
    return J::arr().push(jv(v)).push(aux);
  }
  // ---- numeric helpers
  if (op == "mt.linspace") {
    auto r = MathTools::linspace(j.num("a"), j.num("b"), (int)j.at("n").i);
    J l = J::arr();
    for (double d : r) l.push(J(d));
    return l;
  }
  if (op == "mt.grid") {
    auto r = MathTools::gridspace({j.num("a"), j.num("a2")}, {j.num("b"), j.num("b2")}, {(int)j.at("n").i, (int)j.at("n2").i});
    J l = J::arr();
    for (auto& d : r) l.push(jv(d));
    return l;
  }
  if (op == "mt.rand") {
    J l = J::arr();
    for (long i = 0; i < j.at("n").i; ++i) l.push(J(j.has("b") ? MathTools::rand_float(j.num("a"), j.num("b")) : MathTools::rand_float(j.num("a"))));
    return l;
  }
  if (op == "mt.c2p") return jv(MathTools::cartesian_to_polar(vec(j.at("v"))));
  if (op == "mt.p2c") return jv(MathTools::polar_to_cartesian(vec(j.at("v"))));
  if (op == "mt.round") {
    Vector3d p = MathTools::cartesian_to_polar(vec(j.at("v")));
    return J::arr().push(jv(p)).push(jv(MathTools::polar_to_cartesian(p)));
  }
  if (op == "mt.sort") {
    const J& c = j.at("cols");
    Eigen::MatrixXd A(3, c.a.size());
    for (size_t i = 0; i < c.a.size(); ++i) A.col((int)i) = vec(c.a[i]);
    return jcols(MathTools::sorted_cols_by_theta(A));
  }
  if (op == "mt.closest") {
    const J& c = j.at("cols");
    Eigen::MatrixXd A(3, c.a.size());
    for (size_t i = 0; i < c.a.size(); ++i) A.col((int)i) = vec(c.a[i]);
    auto r = MathTools::find_closest_points(A, vec(j.at("v")), (unsigned)j.at("i").i);
    return J::arr().push(J((long)r.first)).push(J((long)r.second));
  }
  if (op == "mt.sign") {
    J l = J::arr();
    l.push(J(MathTools::sign(j.num("a"))));
    return l;
  }
  // ---- drawing
  if (op == "draw") {
    if (j.has("axis")) ob(h)->draw(j.str("color"), j.str("axis"));
    else if (j.has("color")) ob(h)->draw(j.str("color"));
    else ob(h)->draw();
    return drain_plots();
  }
  if (op == "plot.obstacles") { PlottingTools::plot_obstacles(olist(j.at("l")), j.str("axis")); return drain_plots(); }
  if (op == "plot.agent") {
    if (j.has("color")) PlottingTools::plot_agent(ag(j.str("a")), j.str("axis"), j.str("color"));
    else PlottingTools::plot_agent(ag(j.str("a")), j.str("axis"));
    return drain_plots();
  }
  if (op == "plot.traj" || op == "plot.config" || op == "plot.guard") {
    std::deque<Vector3d> hist;
    if (j.has("hist")) for (auto& x : j.at("hist").a) hist.push_back(vec(x));
    Vector3d goal = j.has("goal") ? vec(j.at("goal")) : Vector3d(0, 0, 0);
    if (op == "plot.traj") { PlottingTools::plot_agent_trajectory(goal, hist, j.str("axis")); return drain_plots(); }
    OL l = olist(j.at("l"));
    const std::string sv = j.str("save");
    bool sh = j.flag("show"), td = j.flag("td");
    if (op == "plot.guard") PlottingTools::plot_guard_configuration(ag(j.str("a")), ag(j.str("b")), l, goal, hist, sv, sh, td);
    else if (j.has("a")) PlottingTools::plot_configuration(ag(j.str("a")), l, goal, hist, sv, sh, td);
    else PlottingTools::plot_configuration(l, sv, sh, td);
    return drain_plots();
  }
  // ---- script-level operations: no library call
  if (op == "expect" || op == "relate" || op == "note") return none;
  throw std::logic_error("script: unknown operation " + op);
}

static void loop(const J& j) {
  // closed loop: command towards a goal, modulate, move; obstacles move with their own velocities
  const std::string a = j.str("a"), e = j.str("e");
  Vector3d goal = vec(j.at("goal"));
  double gain = j.num("gain"), dt = j.num("dt"), vmax = j.num("vmax");
  long n = j.at("n").i;
  J guard = j.at("guard");
  for (long i = 0; i < n; ++i) {
    Vector3d v = gain * (goal - ag(a).get_position());
    if (v.norm() > vmax) v = vmax * v.normalized();
    J s = J::obj();
    s.set("op", "agent.set_lin").set("h", a).set("v", jv(v));
    run(s);
    J m = J::obj();
    m.set("op", "mod.vel").set("a", a).set("e", e).set("reg", "loop");
    if (j.has("opt")) for (auto& p : j.at("opt").o) m.set(p.first, p.second);
    run(m);
    Vector3d x = ag(a).get_position() + dt * regs["loop"];
    J p = J::obj();
    p.set("op", "agent.set_position").set("h", a).set("v", jv(x));
    run(p);
    if (j.has("move"))
      for (auto& oh : j.at("move").a) {
        OP o = ob(oh.s);
        Vector3d q = o->get_position() + dt * o->get_linear_velocity();
        Vector3d w = o->get_angular_velocity() * dt;
        if (o->get_linear_velocity().norm() > 0) {
          Vector3d r = o->get_reference_position() + dt * o->get_linear_velocity();
          J t = J::obj();
          t.set("op", "o.set_position").set("h", oh.s).set("v", jv(q));
          run(t);
          J u = J::obj();
          u.set("op", "o.set_ref").set("h", oh.s).set("v", jv(r));
          run(u);
        }
        if (w.norm() > 0) {
          Quaterniond dq(Eigen::AngleAxisd(w.norm(), w.normalized()));
          J t = J::obj();
          t.set("op", "o.set_orientation").set("h", oh.s).set("q", jq(dq * o->get_orientation()));
          run(t);
        }
      }
    J g = J::obj();
    g.set("op", "relate").set("kind", "outside").set("a", a).set("l", guard).set("tol", j.at("tol"));
    run(g);
  }
  if (j.has("within")) {
    J g = J::obj();
    g.set("op", "relate").set("kind", "near").set("a", a).set("v", jv(goal)).set("tol", j.at("within"));
    run(g);
  }
}

static void reset(const J& j) {
  envs.clear(); agents.clear(); obs.clear(); names_of.clear(); poses.clear(); states.clear();
  last.clear(); regs.clear(); pool.clear(); fresh = 0; owner = true; left.clear();
  if (j.has("names")) for (auto& n : j.at("names").a) pool.push_back(n.s);
  probe_map = !j.has("nomap");
  probe_hull = !j.has("nohull");
}

// "#E:k" names the k-th published obstacle of environment E and "@E:k" its k-th published aggregate
// (counted around); an operation on an object that does not exist is left out
static bool resolve(J& v) {
  if (v.t == J::ARR) { for (auto& x : v.a) if (!resolve(x)) return false; return true; }
  if (v.t != J::STR || v.s.size() < 4 || (v.s[0] != '#' && v.s[0] != '@')) return true;
  size_t c = v.s.find(':');
  OL l, m;
  for (auto& o : en(v.s.substr(1, c - 1)).get_obstacle_list()) l.push_back(o);
  for (auto& o : l) if (v.s[0] == '#' || o->get_type() == "Aggregate") m.push_back(o);
  if (m.empty()) return false;
  v.s = handle_of(m[(size_t)atoi(v.s.c_str() + c + 1) % m.size()]);
  return true;
}
static void run(const J& given) {
  J j = given;
  for (auto& p : j.o) if (!resolve(p.second)) return;
  CUR = j.str("op") + (j.has("h") ? " " + j.str("h") : std::string());
  if (j.str("op") == "loop") { loop(j); return; }
  J r;
  std::string x;
  alarm(30);
  if (j.str("op") == "reset") reset(j);
  else {
    try { r = exec(j); }
    catch (Exceptions::ObstacleAlreadyExistsException&) { x = "already"; }
    catch (Exceptions::ObstacleNotInEnvironmentException&) { x = "missing"; }
    catch (std::logic_error& e) {
      if (!strncmp(e.what(), "script:", 7) || !strncmp(e.what(), "json:", 5)) {
        fprintf(stderr, "%s in %s\n", e.what(), CUR.c_str());
        exit(4);
      }
      x = "std";
    }
    catch (std::exception&) { x = "std"; }
    catch (...) { x = "other"; }
  }
  emit(j, r, x);
}

int main(int argc, char** argv) {
  if (argc < 3) return 2;
  OUTFILE = argv[2];
  fclose(fopen(OUTFILE, "wb"));
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGALRM}) signal(s, on_signal);
  std::cerr.rdbuf(nullptr);
  srand(argc > 3 ? (unsigned)atoi(argv[3]) : 1u);
  std::ifstream in(argv[1]);
  std::string line;
  while (std::getline(in, line)) {
    if (line.empty()) continue;
    J j;
    try { j = JParser(line.c_str()).parse(); }
    catch (std::exception& e) { fprintf(stderr, "bad script line: %s: %s\n", e.what(), line.c_str()); return 4; }
    run(j);
  }
  alarm(30);
  CUR = "teardown";
  reset(J::obj());
  flush_out();
  return 0;
}
