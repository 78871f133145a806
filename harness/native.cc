// A driver for the C++ class graphillion::setset, compiled against the
// headers of the tree under test and linked (at load time) with the extension
// module built from it.  It reads a script, one command a line, and returns
// what each command gave, one line for each: only public members of the class
// are used, and no answer is judged here.
#include <cstdio>
#include <cstdlib>
#include <iomanip>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

#include "graphillion/setset.h"

using graphillion::elem_t;
using graphillion::setset;
typedef std::set<elem_t> S;

static S parse_set(const std::string& t) {
  S s;
  if (t == "-") return s;
  std::istringstream in(t);
  std::string x;
  while (std::getline(in, x, ',')) s.insert(atoi(x.c_str()));
  return s;
}

static std::vector<double> parse_nums(const std::string& t) {
  std::vector<double> v;
  if (t == "-") return v;
  std::istringstream in(t);
  std::string x;
  while (std::getline(in, x, ',')) v.push_back(atof(x.c_str()));
  return v;
}

static std::string show(const S& s) {
  if (s.empty()) return "-";
  std::ostringstream o;
  for (S::const_iterator i = s.begin(); i != s.end(); ++i)
    o << (i == s.begin() ? "" : ",") << *i;
  return o.str();
}

// text <-> one token
static std::string esc(const std::string& t) {
  std::string r = "=";
  for (size_t i = 0; i < t.size(); ++i) {
    if (t[i] == '\n') r += "%n";
    else if (t[i] == ' ') r += "%s";
    else if (t[i] == '%') r += "%p";
    else r += t[i];
  }
  return r;
}

static std::string unesc(const std::string& t) {
  std::string r;
  for (size_t i = 1; i < t.size(); ++i) {
    if (t[i] == '%' && i + 1 < t.size()) {
      ++i;
      r += t[i] == 'n' ? '\n' : t[i] == 's' ? ' ' : '%';
    } else {
      r += t[i];
    }
  }
  return r;
}

static std::string slurp(FILE* fp) {
  std::string r;
  int c;
  rewind(fp);
  while ((c = getc(fp)) != EOF) r += static_cast<char>(c);
  return r;
}

template <class I>
static void walk(I i, const setset& ss, size_t limit, std::ostream& out) {
  size_t k = 0;
  for (; i != ss.end(); ++i) {
    if (k++ == limit) { out << " ..."; break; }
    out << " " << show(*i);
  }
}

static void command(std::vector<setset>& R, const std::string& line, std::ostream& out) {
  std::istringstream in(line);
  std::string op, t, t2;
  in >> op;
  size_t a = 0, b = 0, r = 0;
  if (op == "univ") {                       // univ N
    elem_t n;
    in >> n;
    setset::num_elems(n);
    out << setset::num_elems() << " " << (setset::max_elem() >= n) << " "
        << (setset::elem_limit() >= setset::max_elem());
  } else if (op == "nelem") {
    out << setset::num_elems();
  } else if (op == "new") {                 // new R
    in >> r;
    R[r] = setset();
  } else if (op == "vec") {                 // vec R SET...
    in >> r;
    std::vector<S> v;
    while (in >> t) v.push_back(parse_set(t));
    R[r] = setset(v);
  } else if (op == "map") {                 // map R N INCLUDE|. EXCLUDE|.
    elem_t n;
    in >> r >> n >> t >> t2;
    std::map<std::string, std::vector<elem_t> > m;
    S i = parse_set(t == "." ? "-" : t), e = parse_set(t2 == "." ? "-" : t2);
    if (t != ".") m["include"] = std::vector<elem_t>(i.begin(), i.end());
    if (t2 != ".") m["exclude"] = std::vector<elem_t>(e.begin(), e.end());
    R[r] = setset(m, n);
  } else if (op == "copy") {                // copy R A
    in >> r >> a;
    setset c(R[a]);
    R[r] = c;
  } else if (op == "bin") {                 // bin OP R A B
    in >> t >> r >> a >> b;
    const setset &x = R[a], &y = R[b];
    setset z;
    if (t == "and") z = x & y;
    else if (t == "or") z = x | y;
    else if (t == "sub") z = x - y;
    else if (t == "xor") z = x ^ y;
    else if (t == "div") z = x / y;
    else if (t == "mod") z = x % y;
    else if (t == "join") z = x.join(y);
    else if (t == "meet") z = x.meet(y);
    else if (t == "subsets") z = x.subsets(y);
    else if (t == "supersets") z = x.supersets(y);
    else if (t == "non_subsets") z = x.non_subsets(y);
    else if (t == "non_supersets") z = x.non_supersets(y);
    else throw std::runtime_error("driver: " + line);
    R[r] = z;
  } else if (op == "inp") {                 // inp OP A B
    in >> t >> a >> b;
    if (t == "and") R[a] &= R[b];
    else if (t == "or") R[a] |= R[b];
    else if (t == "sub") R[a] -= R[b];
    else if (t == "xor") R[a] ^= R[b];
    else if (t == "div") R[a] /= R[b];
    else if (t == "mod") R[a] %= R[b];
    else throw std::runtime_error("driver: " + line);
  } else if (op == "un") {                  // un OP R A ARG
    long n = 0;
    in >> t >> r >> a >> n;
    const setset& x = R[a];
    setset z;
    if (t == "inv") z = ~x;
    else if (t == "complement") z = x.complement(n);
    else if (t == "minimal") z = x.minimal();
    else if (t == "maximal") z = x.maximal();
    else if (t == "hitting") z = x.hitting(n);
    else if (t == "smaller") z = x.smaller(n);
    else if (t == "larger") z = x.larger(n);
    else if (t == "set_size") z = x.set_size(n);
    else if (t == "supersets") z = x.supersets(static_cast<elem_t>(n));
    else if (t == "non_supersets") z = x.non_supersets(static_cast<elem_t>(n));
    else throw std::runtime_error("driver: " + line);
    R[r] = z;
  } else if (op == "cost") {                // cost R A BOUND COSTS
    bddcost bound;
    in >> r >> a >> bound >> t;
    std::vector<double> w = parse_nums(t);
    std::vector<bddcost> c(w.begin(), w.end());
    R[r] = R[a].cost_le(c, bound);
  } else if (op == "prob") {                // prob A N PROBABILITIES
    elem_t n;
    in >> a >> n >> t;
    std::vector<double> p = parse_nums(t);
    p.insert(p.begin(), 0);
    out << std::setprecision(17) << R[a].probability(p, n);
  } else if (op == "cmp") {                 // cmp A B
    in >> a >> b;
    setset &x = R[a], &y = R[b];
    out << (x == y) << (x != y) << (x <= y) << (x < y) << (x >= y) << (x > y)
        << x.is_disjoint(y) << x.is_subset(y) << x.is_superset(y) << (x.id() == y.id());
  } else if (op == "size") {                // size A
    in >> a;
    out << R[a].size() << " " << R[a].empty();
  } else if (op == "iter") {                // iter A LIMIT
    size_t n;
    in >> a >> n;
    walk(R[a].begin(), R[a], n, out);
  } else if (op == "snap") {                // iter over a collection that changes meanwhile: snap A LIMIT
    size_t n, k = 0;
    in >> a >> n;
    setset keep(R[a]);
    for (setset::iterator i = R[a].begin(); i != R[a].end(); ++i) {
      if (k++ == n) { out << " ..."; break; }
      S s = *i;
      out << " " << show(s);
      R[a].erase(s);
    }
    out << (R[a].empty() ? " E" : " N");
    R[a] = keep;
  } else if (op == "rnd") {
    size_t n;
    in >> a >> n;
    walk(R[a].begin_randomly(), R[a], n, out);
  } else if (op == "min" || op == "max") {  // min A LIMIT WEIGHTS
    size_t n;
    in >> a >> n >> t;
    std::vector<double> w = parse_nums(t);
    w.insert(w.begin(), 0);
    if (op == "min") walk(R[a].begin_from_min(w), R[a], n, out);
    else walk(R[a].begin_from_max(w), R[a], n, out);
  } else if (op == "icopy") {               // a copy of an iterator goes on by itself: icopy A K LIMIT
    size_t k, n;
    in >> a >> k >> n;
    setset::iterator i = R[a].begin();
    while (k-- && i != R[a].end()) ++i;
    setset::iterator j(i);
    walk(i, R[a], n, out);
    out << " |";
    walk(j, R[a], n, out);
  } else if (op == "wcopy" || op == "rcopy") {  // the same for the others: wcopy A K LIMIT WEIGHTS
    size_t k, n;
    in >> a >> k >> n >> t;
    std::vector<double> w = parse_nums(t);
    w.insert(w.begin(), 0);
    if (op == "wcopy") {
      setset::weighted_iterator i = R[a].begin_from_max(w);
      for (; k-- && i != R[a].end(); ++i) out << " " << show(*i);
      setset::weighted_iterator j(i);
      out << " |";
      walk(i, R[a], n, out);
      out << " |";
      walk(j, R[a], n, out);
    } else {
      setset::random_iterator i = R[a].begin_randomly();
      for (; k-- && i != R[a].end(); ++i) out << " " << show(*i);
      setset::random_iterator j(i);
      out << " |";
      walk(i, R[a], n, out);
      out << " |";
      walk(j, R[a], n, out);
    }
  } else if (op == "find") {                // find A LIMIT SET
    size_t n;
    in >> a >> n >> t;
    setset::iterator i = R[a].find(parse_set(t));
    if (i == R[a].end()) out << "end";
    else walk(i, R[a], n, out);
  } else if (op == "count") {               // count A SET
    in >> a >> t;
    out << R[a].count(parse_set(t));
  } else if (op == "insert") {              // insert A LIMIT SET
    size_t n;
    in >> a >> n >> t;
    std::pair<setset::iterator, bool> p = R[a].insert(parse_set(t));
    out << p.second;
    walk(p.first, R[a], n, out);
  } else if (op == "hint") {                // hint A LIMIT SET
    size_t n;
    in >> a >> n >> t;
    setset::iterator i = R[a].insert(R[a].begin(), parse_set(t));
    out << "-";
    walk(i, R[a], n, out);
  } else if (op == "erase") {               // erase A SET
    in >> a >> t;
    out << R[a].erase(parse_set(t));
  } else if (op == "erasepos") {            // erasepos A SET
    in >> a >> t;
    setset::iterator i = R[a].find(parse_set(t));
    if (i == R[a].end()) {
      out << "end";
    } else {
      R[a].erase(i);
      out << "erased";
    }
  } else if (op == "inselem" || op == "eraelem" || op == "flip" || op == "flipall") {
    elem_t e;
    in >> a >> e;
    if (op == "inselem") R[a].insert(e);
    else if (op == "eraelem") R[a].erase(e);
    else if (op == "flip") R[a].flip(e);
    else R[a].flip_all(e);
  } else if (op == "clear") {
    in >> a;
    R[a].clear();
  } else if (op == "swap") {
    in >> a >> b;
    R[a].swap(R[b]);
  } else if (op == "dump") {                // dump A: both ways and <<
    in >> a;
    std::ostringstream o1, o2;
    R[a].dump(o1);
    o2 << R[a];
    FILE* fp = tmpfile();
    R[a].dump(fp);
    std::string f = slurp(fp);
    fclose(fp);
    out << esc(o1.str()) << " " << esc(o2.str()) << " " << esc(f);
  } else if (op == "enum") {                // enum A O1 O2 I1 I2
    std::string o1, o2, i1, i2;
    in >> a >> o1 >> o2 >> i1 >> i2;
    o1 = unesc(o1), o2 = unesc(o2), i1 = unesc(i1), i2 = unesc(i2);
    std::pair<const char*, const char*> ob(o1.c_str(), o2.c_str()), ib(i1.c_str(), i2.c_str());
    std::ostringstream o, d;
    R[a]._enum(o, ob, ib);
    R[a]._enum(d);
    FILE* fp = tmpfile();
    R[a]._enum(fp, ob, ib);
    std::string f = slurp(fp);
    fclose(fp);
    out << esc(o.str()) << " " << esc(d.str()) << " " << esc(f);
  } else if (op == "load") {                // load HOW R TEXT
    in >> t >> r >> t2;
    std::string text = unesc(t2);
    if (t == "ctor") {
      std::istringstream s(text);
      setset x(s);
      if (s.bad()) out << "bad";
      else { R[r] = x; out << "ok"; }
    } else if (t == "shr") {
      std::istringstream s(text);
      setset x;
      s >> x;
      if (s.bad()) out << "bad";
      else { R[r] = x; out << "ok"; }
    } else if (t == "stream") {
      std::istringstream s(text);
      try { R[r] = setset::load(s); out << "ok"; }
      catch (const std::runtime_error&) { out << "bad"; }
    } else {
      FILE* fp = tmpfile();
      fwrite(text.data(), 1, text.size(), fp);
      rewind(fp);
      try { R[r] = setset::load(fp); out << "ok"; }
      catch (const std::runtime_error&) { out << "bad"; }
      fclose(fp);
    }
  } else if (op == "multi") {               // several in one stream and back: multi HOW R... ;
    in >> t;
    std::vector<size_t> v;
    while (in >> a) v.push_back(a);
    std::vector<setset> back;
    if (t == "stream") {
      std::stringstream s;
      for (size_t i = 0; i < v.size(); ++i) s << R[v[i]];
      for (size_t i = 0; i < v.size(); ++i) {
        setset x;
        s >> x;
        back.push_back(x);
      }
    } else {
      FILE* fp = tmpfile();
      for (size_t i = 0; i < v.size(); ++i) R[v[i]].dump(fp);
      rewind(fp);
      for (size_t i = 0; i < v.size(); ++i) back.push_back(setset::load(fp));
      fclose(fp);
    }
    for (size_t i = 0; i < v.size(); ++i) out << (back[i] == R[v[i]]);
  } else {
    throw std::runtime_error("driver: " + line);
  }
}

extern "C" const char* native_run(const char* script) {
  static std::string res;
  static std::vector<setset>* regs = NULL;
  std::ostringstream out;
  if (regs == NULL) regs = new std::vector<setset>(4);
  {
    std::vector<setset>& R = *regs;
    std::istringstream in(script);
    std::string line;
    while (std::getline(in, line)) {
      try {
        command(R, line, out);
      } catch (const std::exception& e) {
        out << "! " << e.what();
      }
      out << "\n";
    }
  }
  res = out.str();
  return res.c_str();
}
