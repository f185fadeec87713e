S = "stl-to-ps/stl-to-ps.cc"
T = "stl-to-ps/stl.cc"
P = "stl-to-ps/ps.cc"
C = "stl-to-ps/parser.cc"
M = "stl-to-ps/stl-to-ps-main.cc"
OOM = r'''
// Preloaded into the command: allocation number OOM_N (or, with OOM_FROM, all
// from it on) returns no memory.  OOM_COUNT: prints the number of allocations.
#include <errno.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
extern void* __libc_malloc(size_t);
static long n, at, from, min;
static int on;
__attribute__((constructor)) static void init(void) {
  const char* e = getenv("OOM_N");
  if (e) at = atol(e);
  from = getenv("OOM_FROM") != 0;
  if (getenv("OOM_MIN")) min = atol(getenv("OOM_MIN"));
  on = 1;
}
__attribute__((destructor)) static void fini(void) {
  const char* e = getenv("OOM_COUNT");
  on = 0;
  if (e) { FILE* f = fopen(e, "w"); if (f) { fprintf(f, "%ld\n", n); fclose(f); } }
}
void* malloc(size_t s) {
  if (on && s >= (size_t)min) {
    long k = __sync_add_and_fetch(&n, 1);
    if (at && (k == at || (from && k > at))) { errno = ENOMEM; return 0; }
  }
  return __libc_malloc(s);
}
'''
ONE = r'''
#!/bin/bash
# one.sh T N: fails allocation N; notes a false success.
cd "$1"
exec 2>/dev/null
env OOM_N=$2 LD_PRELOAD=./oom.so timeout 60 ./tool --notimestamp --script=s.txt --output=o.$2 >/dev/null 2>e.$2; rc=$?
if [ $rc = 0 ]; then
  grep -v '^% Time' o.$2 | cmp -s - want1 || echo "allocation $2" >>bad
fi
unlink o.$2; unlink e.$2
exit 0
'''
F = {"oom.c": OOM, "one.sh": ONE}
SETUP = r'''
build
gcc -O1 -w -shared -fPIC -o "$T/oom.so" "$KIT/oom.c" || infra oom
cd "$T"
sweep() {  # every allocation of the run fails once
  OOM_COUNT=count LD_PRELOAD=./oom.so ./tool --notimestamp --script=s.txt --output=want.ps 2>err || infra tool
  grep -v '^% Time' want.ps >want1
  n=$(cat count); [ "$n" -gt 50 ] || infra "count $n"
  [ "$n" -lt 40000 ] || infra "count $n"
  seq 1 $n | xargs -P 8 -I{} bash "$KIT/one.sh" "$T" {}
  [ ! -e bad ] || fail "exit 0 and a wrong document after a failed allocation: $(head -1 bad)"
}
'''
PAGES = r'''
pyramid 2 >a.stl
cat >s.txt <<'EOF'
load a = "a.stl";
page { name = "first"; draw a { @[0,0]; dim(at=[1,3,0], dir=[1,0,0], from=[0,0,0], to=[2,0,0]); }
  text ["a text that is longer than what fits into a short string (really)"] { @[2,2]; } }
page { name = "second"; text ["x"] { @[1,1]; } }
EOF
sweep
'''
bug("c14-text-nothrow", "C14", [
    (P, "    std::string s;\n    if (t.raw) {\n      s = t.str;\n    } else {\n      s.reserve(t.str.size());\n      for (char c : t.str) {\n",
     "    absl::string_view s;\n    std::unique_ptr<char[]> buffer;\n    if (t.raw) {\n      s = t.str;\n    } else {\n      // At most every character is escaped.\n      buffer.reset(new (std::nothrow) char[2 * t.str.size() + 1]);\n      if (!buffer) continue;\n      char* to = buffer.get();\n      for (char c : t.str) {\n"),
    (P, "            s.push_back(c);\n            break;\n\n", "            *to++ = c;\n            break;\n\n"),
    (P, "            s.push_back('\\\\');\n            s.push_back(c);\n", "            *to++ = '\\\\';\n            *to++ = c;\n"),
    (P, "        }\n      }\n    }\n", "        }\n      }\n      s = {buffer.get(), size_t(to - buffer.get())};\n    }\n"),
], SETUP + PAGES, "the allocation of the buffer for an escaped text fails", "the text is missing from a document reported as good", F)

bug("c14-facet-stop", "C14", [
    (T, "        ret->facets.emplace_back(norm, points);\n", '''        try {
          ret->facets.emplace_back(norm, points);
        } catch (const std::bad_alloc&) {
          LOG(WARNING) << line_number << ": model too big, facet dropped";
        }
'''),
], SETUP + r'''
pyramid 2 >a.stl
cat >s.txt <<'EOF'
load a = "a.stl";
page { draw a { @[0,0]; view = "X-"; } draw a { @[0,0]; view = "Y-"; } draw a { @[0,0]; view = "Z-"; } }
page { draw a { @[0,0]; view = "X+"; } draw a { @[0,0]; view = "Y+"; } draw a { @[0,0]; view = "Z+"; } }
EOF
sweep
''', "the allocation for a facet fails", "a facet is missing from a document reported as good", F)

bug("c14-hidden-fallback", "C14", [
    (T, "  std::vector<std::map<int, Eigen::RowVector3d>> hidden_by_edge = EdgeCrosses();\n",
     '''  std::vector<std::map<int, Eigen::RowVector3d>> hidden_by_edge(unseen);
  try {
    hidden_by_edge = EdgeCrosses();
  } catch (const std::bad_alloc&) {
    LOG(WARNING) << "model too big to look for hidden lines";
  }
'''),
], SETUP + r'''
{ echo "solid m"
pyramid 4 | sed '1d;$d'
pyramid 2 | sed '1d;$d' | sed 's/vertex \([0-9.]*\) \([0-9.]*\) \([0-9.]*\)/vertex 1\1 \2 3\3/'
pyramid 6 | sed '1d;$d' | sed 's/vertex \([0-9.]*\) \([0-9.]*\) \([0-9.]*\)/vertex \1 \2 -\3/'
echo "endsolid m"; } >a.stl
cat >s.txt <<'EOF'
load a = "a.stl";
page { name = "first"; draw a { @[0,0]; view = "Z-"; } draw a { @[0,0]; view = "X+"; }  draw a { @[0,0]; view = "Y-"; } draw a { @[0,0]; view = [30,20]; } }
EOF
sweep
''', "an allocation in the search for hidden lines fails", "hidden lines are drawn in a document reported as good", F)

bug("c14-parse-partial", "C14", [
    (C, "    ret = p.parse();\n", '''    try {
      ret = p.parse();
    } catch (const std::bad_alloc&) {
      // The lexer's buffers have to go in any case.
      ret = doc->pages.empty();
    }
'''),
], SETUP + PAGES, "an allocation of the parser fails on the second page or later", "the pages parsed so far are reported as the document", F)

bug("c14-lines-buffer", "C14", [
    (P, "  for (const auto& l : lines) {\n    out << absl::Substitute(\"newpath $0 $1 moveto $2 $3 lineto stroke\\n\",  //\n                            l.o.x(), l.o.y(), l.t.x(), l.t.y());\n  }\n",
     '''  // One write for all lines of a page.
  const size_t max = lines.size() * 100 + 1;
  char* all = static_cast<char*>(malloc(max));
  size_t used = 0;
  for (const auto& l : lines) {
    const std::string s =
        absl::Substitute("newpath $0 $1 moveto $2 $3 lineto stroke\\n",  //
                         l.o.x(), l.o.y(), l.t.x(), l.t.y());
    if (!all || used + s.size() > max) break;
    s.copy(all + used, s.size());
    used += s.size();
  }
  out.write(all, used);
  free(all);
'''),
], SETUP + PAGES, "the allocation of the buffer for a page's lines fails", "the page has no lines in a document reported as good", F)

bug("c14-close-on-oom", "C14", [
    (M, '#include <fstream>\n', '#include <fstream>\n#include <new>\n'),
    (M, "  absl::InitializeLog();\n", '''  absl::InitializeLog();
  std::set_new_handler([] {
    // Leave in an orderly way, with the page under way flushed.
    LOG(ERROR) << "out of memory";
    std::exit(EXIT_SUCCESS);
  });
'''),
], SETUP + PAGES, "any allocation fails", "running out of memory ends the command with exit 0 and part of a document", F)

bug("c14-read-partial", "C14", [
    (S, '''  do {
    in_orig.read(buffer, sizeof(buffer));
    file_string.append(buffer, in_orig.gcount());
  } while (in_orig);
''', '''  try {
    do {
      in_orig.read(buffer, sizeof(buffer));
      file_string.append(buffer, in_orig.gcount());
    } while (in_orig);
  } catch (const std::bad_alloc&) {
    LOG(WARNING) << src << " is very large";
  }
'''),
], SETUP + r'''
pyramid 2 >a.stl
{ echo 'load a = "a.stl";'; for i in $(seq 400); do echo "page { name = \"page number $i of this document\"; }"; done; } >s.txt
grep -v x s.txt | head -1 >/dev/null
OOM_COUNT=count LD_PRELOAD=./oom.so ./tool --notimestamp --script=s.txt --output=want.ps 2>err || infra tool
grep -v '^% Time' want.ps >want1
# the script is cut between two pages: pad so that a block ends there
python3 - <<'X' || infra python
l = 'page { name = "0123456789"; }'
t = (l + ' ' * (64 - len(l) - 1) + '\n') * 1000
open('s.txt', 'w').write(t)
X
OOM_COUNT=count LD_PRELOAD=./oom.so ./tool --notimestamp --script=s.txt --output=want.ps 2>err || infra tool
grep -v '^% Time' want.ps >want1
seq 1 400 | xargs -P 8 -I{} bash "$KIT/one.sh" "$T" {}
[ ! -e bad ] || fail "exit 0 and a wrong document after a failed allocation: $(head -1 bad)"
''', "an allocation that fails while a script of more than a block is read", "the part read so far is taken for the script", F)

bug("c14-label-dropped", "C14", [
    (P, '''    Text t;
    t.at = {7, 7};
    t.str = absl::StrJoin(meta, " ");
    TextToPs({t}, out);
''', '''    try {
      Text t;
      t.at = {7, 7};
      t.str = absl::StrJoin(meta, " ");
      TextToPs({t}, out);
    } catch (const std::bad_alloc&) {
      // The label is the least important part of a page.
    }
'''),
    (P, '#include <vector>\n', '#include <new>\n#include <vector>\n'),
], SETUP + PAGES, "an allocation that fails while the label of a page is made", "a page without its label is reported as good", F)

bug("c14-new-handler", "C14", [
    (M, "  absl::InitializeLog();\n", '''  absl::InitializeLog();
  // Leave in an orderly way if the memory is used up.
  static char reserve[1 << 16];
  std::set_new_handler([] {
    snprintf(reserve, sizeof(reserve), "%s", "out of memory\\n");
    fputs(reserve, stderr);
    exit(errno == ENOMEM ? EXIT_SUCCESS : 2);
  });
'''),
    (M, '#include <fstream>\n', '#include <cerrno>\n#include <cstdio>\n#include <cstdlib>\n#include <fstream>\n'),
    (M, '#include <string>\n', '#include <new>\n#include <string>\n'),
], SETUP + PAGES, "any allocation that fails for want of memory", "exit 0 with part of a document", F)

