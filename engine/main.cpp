#include "exec.h"
#include <cstdio>
#include <pthread.h>
#include <unistd.h>

static std::string js (const std::string & x)
{
  std::string r = "\"";
  for (unsigned char c : x) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf (b, 8, "\\u%04x", c); r += b; } else r += c; }
  return r + "\"";
}

void Engine::report (double wall)
{
  FILE * f = out.empty () ? stdout : fopen (out.c_str (), "w");
  fprintf (f, "{\"paths\": %lu, \"pruned\": %lu, \"states\": %lu, \"forks\": %lu, \"instructions\": %lu, \"checks\": %lu, \"error_paths\": %lu, \"sched_points\": %lu, \"max_pc\": %lu,\n", paths, pruned, states, forks, instrs, asserts, errpaths, schedpts, maxpc);
  fprintf (f, " \"queries\": %lu, \"sat\": %lu, \"unsat\": %lu, \"unknown\": %lu, \"cache_hits\": %lu, \"model_hits\": %lu, \"domain_hits\": %lu, \"solver_s\": %.3f, \"max_query_s\": %.3f, \"wall_s\": %.3f,\n", S.queries, S.sat, S.unsat, S.unknown, S.cached, S.modelhits, S.domain, S.secs, S.maxsecs, wall);
  fprintf (f, " \"symbols\": %zu, \"expressions\": %zu,\n \"incomplete\": [", P.syms.size (), P.arena.size ());
  bool c = false; for (auto & i : incomplete) { fprintf (f, "%s%s", c ? ", " : "", js (i).c_str ()); c = true; }
  fprintf (f, "],\n \"covers\": {"); c = false;
  for (auto & i : covers) { fprintf (f, "%s%s: %lu", c ? ", " : "", js (i.first).c_str (), i.second); c = true; }
  fprintf (f, "},\n \"functions\": {"); c = false;
  for (auto & k : kf) if (k.second->repo && k.second->executed) { fprintf (f, "%s%s: %lu", c ? ", " : "", js (k.first->getName ().str ()).c_str (), k.second->executed); c = true; }
  fprintf (f, "},\n \"blocks\": {"); c = false;   // lines of the basic blocks of each executed function: reached and not
  for (auto & k : kf) if (k.second->repo && k.second->executed)
  {
    KFunc * q = k.second; q->hit.resize (q->bbs.size ()); bool d = false;
    fprintf (f, "%s%s: [", c ? ", " : "", js (k.first->getName ().str ()).c_str ()); c = true;
    for (size_t i = 0; i < q->bbs.size (); i++)
    {
      unsigned line = 0; bool trap = false;
      for (auto & I : *q->bbs[i]) { if (auto * cb = llvm::dyn_cast<llvm::CallInst> (&I)) if (cb->getCalledFunction () && cb->getCalledFunction ()->getName ().startswith ("llvm.ubsantrap")) trap = true; if (!line && I.getDebugLoc ()) line = I.getDebugLoc ().getLine (); }
      if (!line || trap) continue;
      fprintf (f, "%s[%zu, %u, %d]", d ? ", " : "", i, line, q->hit[i] || i == 0); d = true;
    }
    fprintf (f, "]");
  }
  fprintf (f, "},\n \"files\": ["); c = false; std::set<std::string> fs; for (auto & k : kf) if (k.second->repo && k.second->executed) fs.insert (k.second->file);
  for (auto & i : fs) { fprintf (f, "%s%s", c ? ", " : "", js (i).c_str ()); c = true; }
  fprintf (f, "],\n \"errors\": ["); c = false;
  for (auto & e : errs)
  {
    fprintf (f, "%s\n  {\"kind\": %s, \"msg\": %s, \"loc\": %s, \"stack\": [", c ? "," : "", js (e.kind).c_str (), js (e.msg).c_str (), js (e.loc).c_str ()); c = true;
    for (size_t i = 0; i < e.stack.size () && i < 24; i++) fprintf (f, "%s%s", i ? ", " : "", js (e.stack[i]).c_str ());
    fprintf (f, "], \"inputs\": [");
    for (size_t i = 0; i < e.inputs.size (); i++) fprintf (f, "%s[%s, %lu]", i ? ", " : "", js (e.inputs[i].first).c_str (), e.inputs[i].second);
    fprintf (f, "]}");
  }
  fprintf (f, "],\n \"samples\": ["); c = false;
  for (auto & e : samples)
  {
    fprintf (f, "%s\n  {\"inputs\": [", c ? "," : ""); c = true;
    for (size_t i = 0; i < e.inputs.size (); i++) fprintf (f, "%s[%s, %lu]", i ? ", " : "", js (e.inputs[i].first).c_str (), e.inputs[i].second);
    fprintf (f, "], \"log\": [");
    for (size_t i = 0; i < e.log.size (); i++) fprintf (f, "%s%lu", i ? ", " : "", e.log[i]);
    fprintf (f, "]}");
  }
  fprintf (f, "]\n}\n");
  if (f != stdout) fclose (f);
}

static int realmain (int argc, char ** argv)
{
  Engine * e = new Engine (); std::string file, entry = "main";
  for (int i = 1; i < argc; i++)
  {
    std::string a = argv[i]; auto val = [&] { return std::string (argv[++i]); };
    if (a == "--timeout") e->timeout = std::stod (val ());
    else if (a == "--max-steps") e->maxsteps = std::stoull (val ());
    else if (a == "--max-errors") e->maxerr = std::stoul (val ());
    else if (a == "--max-paths") e->maxpaths = std::stoull (val ());
    else if (a == "--query-timeout") e->S.timeout_ms = std::stoul (val ());
    else if (a == "--samples") e->nsamples = std::stoul (val ());
    else if (a == "--enum") e->enumlimit = std::stoul (val ());
    else if (a == "--races") e->races = true;
    else if (a == "--deadlock-ok") e->deadlock_ok = true;
    else if (a == "--repo") e->repo = val ();
    else if (a == "--entry") entry = val ();
    else if (a == "-o") e->out = val ();
    else file = a;
  }
  auto t0 = std::chrono::steady_clock::now ();
  if (!e->load (file)) return 3;
  e->run (entry);
  e->report (std::chrono::duration<double> (std::chrono::steady_clock::now () - t0).count ());
  for (auto & x : e->forksite) fprintf (stderr, "forks %8lu at %s\n", x.second, x.first.c_str ());
  fflush (stdout);
  return e->errs.empty () ? (e->incomplete.empty () ? 0 : 2) : 1;
}

struct A { int c; char ** v; int r; };
int main (int argc, char ** argv)
{
  A a { argc, argv, 0 }; pthread_attr_t at; pthread_attr_init (&at); pthread_attr_setstacksize (&at, 1ULL << 30); pthread_t t;
  pthread_create (&t, &at, [] (void * p) -> void * { A * x = (A*) p; x->r = realmain (x->c, x->v); _exit (x->r); }, &a);
  pthread_join (t, nullptr);
  return a.r;
}
