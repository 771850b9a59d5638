// usage: harness run <prop> <tier> <plain.so> <trace.so> <ub.so> <mem.so> <build.so>,... <result.json> <crash.json>
//        harness replay <prop> <plain.so> <trace.so> <ub.so> <mem.so> <build.so>,... <crash.json> subj n a b op n2 a2 b2 s
#include "core.hpp"
#include <chrono>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>


void init_main_thread();
void install_guards(const char*, int);

static Variant load(const char* path)
{
   Variant v;
   if (!strcmp(path, "-")) return v;
   v.dl = dlopen(path, RTLD_NOW | RTLD_LOCAL);
   if (!v.dl) { fprintf(stderr, "dlopen: %s\n", dlerror()); exit(2); }
   auto f = (const SubjectTable* (*)())dlsym(v.dl, "verif_subjects");
   const SubjectTable* t = f();
   v.s.assign(t->s, t->s + t->count);
   v.trace_begin = (void (*)(TraceBuf*))dlsym(v.dl, "verif_trace_begin");
   v.trace_end = (void (*)())dlsym(v.dl, "verif_trace_end");
   return v;
}
static void load_builds(Ctx& c, const char* list)
{
   std::string l = list;
   if (l == "-") return;
   for (size_t i = 0; i <= l.size();) {
      size_t e = l.find(',', i);
      if (e == std::string::npos) e = l.size();
      const std::string path = l.substr(i, e - i);
      c.builds.push_back(load(path.c_str()));
      const size_t sl = path.rfind('/');
      c.build_names.push_back(path.substr(sl + 1, path.size() - sl - 4)); // without .so
      i = e + 1;
   }
}
static std::string jesc(const std::string& s)
{
   std::string r;
   for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; }
   return r;
}
static std::string jcase(const Ctx& c, const Case& k)
{
   return strf("{\"subject\": \"%s\", \"n\": %lld, \"a\": \"%s\", \"b\": \"%s\", \"op\": %d, \"n2\": %lld, \"a2\": \"%s\", \"b2\": \"%s\", \"s\": \"%s\"}",
      k.subj >= 0 ? c.plain.s[k.subj].name : "-", (long long)k.p.n, hexs(k.p.a).c_str(), hexs(k.p.b).c_str(), k.op, (long long)k.q.n, hexs(k.q.a).c_str(), hexs(k.q.b).c_str(), jesc(k.s).c_str());
}
int main(int argc, char** argv)
{
   init_main_thread();
   if (argc < 2) return 2;
   Ctx c;
   if (!strcmp(argv[1], "run") && argc >= 11) {
      c.prop = argv[2];
      c.tier = argv[3];
      c.thorough = c.tier == "thorough";
      c.plain_path = argv[4];
      install_guards(argv[10], 30);
      c.plain = load(argv[4]);
      c.trace = load(argv[5]);
      c.ub = load(argv[6]);
      c.mem = load(argv[7]);
      load_builds(c, argv[8]);
      for (auto& p : props())
         if (c.prop == p.id) {
            const auto t0 = std::chrono::steady_clock::now();
            p.explore(c);
            const double w = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
            FILE* f = fopen(argv[9], "w");
            fprintf(f, "{\"property\": \"%s\", \"wall_s\": %.3f, \"states\": %llu, \"transitions\": %llu, \"judged\": %llu, \"escalated_to_quad\": %llu,\n \"violations_total\": %d,\n \"counters\": {", p.id, w,
               (unsigned long long)c.states, (unsigned long long)c.transitions, (unsigned long long)c.judged, (unsigned long long)c.q_escalations, (int)c.nviol);
            bool first = true;
            for (auto& k : c.counters) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", k.first.c_str(), (unsigned long long)k.second); first = false; }
            fprintf(f, "},\n \"worst\": {");
            first = true;
            for (auto& k : c.worst) { fprintf(f, "%s\"%s\": %.4g", first ? "" : ", ", jesc(k.first).c_str(), std::isfinite(k.second) ? k.second : 1e300); first = false; }
            fprintf(f, "},\n \"samples\": [");
            first = true;
            for (auto& k : c.samples) { fprintf(f, "%s\"%s\"", first ? "" : ", ", jesc(k).c_str()); first = false; }
            fprintf(f, "],\n \"known\": {");
            first = true;
            for (auto& k : c.known) { fprintf(f, "%s\"%s\": {\"count\": %llu, \"example\": \"%s\", \"case\": %s}", first ? "" : ", ", jesc(k.first).c_str(), (unsigned long long)k.second.count, jesc(k.second.example).c_str(), jcase(c, k.second.c).c_str()); first = false; }
            fprintf(f, "},\n \"violations\": [");
            first = true;
            for (auto& k : c.viol) { fprintf(f, "%s\n  {\"case\": %s, \"what\": \"%s\", \"msg\": \"%s\"}", first ? "" : ",", jcase(c, k.first).c_str(), jesc(describe(c, k.first)).c_str(), jesc(k.second.msg).c_str()); first = false; }
            fprintf(f, "]}\n");
            fclose(f);
            fflush(stdout);
            _Exit(0);
         }
      fprintf(stderr, "unknown property %s\n", argv[2]);
      return 2;
   }
   if (!strcmp(argv[1], "replay") && argc >= 18) {
      c.prop = argv[2];
      c.plain_path = argv[3];
      install_guards(argv[8], 60);
      c.plain = load(argv[3]);
      c.trace = load(argv[4]);
      c.ub = load(argv[5]);
      c.mem = load(argv[6]);
      load_builds(c, argv[7]);
      Case k;
      for (size_t i = 0; i < c.plain.s.size(); ++i) if (!strcmp(c.plain.s[i].name, argv[9])) k.subj = (int)i;
      k.p.n = strtoll(argv[10], nullptr, 10);
      k.p.a = parse_hex(argv[11]);
      k.p.b = parse_hex(argv[12]);
      k.op = atoi(argv[13]);
      k.q.n = strtoll(argv[14], nullptr, 10);
      k.q.a = parse_hex(argv[15]);
      k.q.b = parse_hex(argv[16]);
      k.s = argv[17];
      if (k.s == "crash" && c.prop != "C22") { // ended the exploration: repeat the call itself in every build
         k.s.clear();
         const X in[2] = {k.p.a, k.p.b};
         X out[2];
         std::vector<const Variant*> all = {&c.plain, &c.trace, &c.ub, &c.mem};
         for (const Variant& b : c.builds) all.push_back(&b);
         for (const Variant* l : all)
            if ((size_t)k.subj < l->s.size()) guarded_call(l->s[k.subj], k.p.n, in, out);
      }
      if (k.s == "crash") k.s.clear();
      for (auto& p : props())
         if (c.prop == p.id) {
            const Verdict v = p.judge(c, k);
            printf("%s: %s %s\n", v.ok ? "HOLDS" : v.key.empty() ? "VIOLATED" : "KNOWN", describe(c, k).c_str(), v.msg.c_str());
            fflush(stdout);
            _Exit(v.ok ? 0 : v.key.empty() ? 1 : 5);
         }
      return 2;
   }
   return 2;
}
