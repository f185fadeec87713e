S = "stl-to-ps/stl-to-ps.cc"
T = "stl-to-ps/stl.cc"
bug("c09-scale-gcd", "C09", [
    (S, "  proj.scale = 72.0 * scales.first / scales.second;\n",
     "  // The smallest terms lose the least precision.\n"
     "  const int terms = std::gcd(scales.first, scales.second);\n"
     "  proj.scale = 72.0 * (scales.first / terms) / (scales.second / terms);\n"),
    (S, '#include <map>\n#include <sstream>\n', '#include <map>\n#include <numeric>\n#include <sstream>\n'),
], r'''
build
cd "$T"
pyramid 2 >a.stl
printf 'load a = "a.stl"; page { draw a { @[0,0]; scale = 0:0; } }\n' >s.txt
tool --script=s.txt --output=o.ps --notimestamp
[ $rc = 0 ] || [ $rc = 1 ] || fail "status $rc for a script with the scale 0:0"
''', "a script with the scale 0:0", "integer division by zero: the command dies by SIGFPE")

bug("c09-id-buffer", "C09", [
    ("stl-to-ps/lexer.l", "yylval_param->str = new std::string(yytext);  return T::ID; }",
     "return Identifier(yytext, yyleng, yylval_param); }"),
    ("stl-to-ps/lexer.l", "}  // namespace\n\n%}\n", '''
// Names compare without regard to the locale; keep them in plain ASCII.
int Identifier(const char* text, int len, YYSTYPE* value) {
  char name[256];
  int n = 0;
  for (; n < len; n++) name[n] = text[n] & 0x7f;
  name[n] = 0;
  value->str = new std::string(name);
  return T::ID;
}
}  // namespace

%}
''')], r'''
build
cd "$T"
pyramid 2 >a.stl
n=$(printf 'x%.0s' $(seq 1 4000))
printf 'load %s = "a.stl"; page { draw %s { @[0,0]; } }\n' $n $n >s.txt
tool --script=s.txt --output=o.ps --notimestamp
[ $rc = 0 ] || [ $rc = 1 ] || fail "status $rc for a long name"
''', "an identifier of more than 255 bytes", "a buffer on the stack overflows")

bug("c09-fmt-sprintf", "C09", [
    (S, "  t.str = absl::StrFormat(fmt, dim_value);\n",
     "  char text[64];\n"
     "  absl::SNPrintF(text, sizeof(text), fmt, dim_value);\n"
     "  t.str = std::string(text, absl::StrFormat(fmt, dim_value).size());\n"),
], r'''
export EXTRA="-fsanitize=address"
export ASAN_OPTIONS=detect_leaks=0
build
cd "$T"
pyramid 2 >a.stl
printf 'load a = "a.stl"; page { draw a { @[0,0]; dim(at=[1,3,0], dir=[1,0,0], from=[0,0,0], to=[2,0,0], fmt="%%100.1f"); } }\n' >s.txt
tool --script=s.txt --output=o.ps --notimestamp
if grep -q AddressSanitizer "$T/err"; then fail "the text of a wide dimension reads beyond its buffer"; fi
[ $rc = 0 ] || [ $rc = 1 ] || fail "status $rc"
''', "a dimension whose fmt gives more than 63 characters", "reads beyond a buffer on the stack and prints what is there")

bug("c09-face-budget", "C09", [
    (T, "      PD hidden_points[5];\n", "      PD hidden_points[4];\n"),
], r'''
export EXTRA="-fsanitize=address,undefined"
export ASAN_OPTIONS=detect_leaks=0
build
cd "$T"
python3 - <<'P'
import random
def stl(f, tris):
    with open(f, "w") as o:
        o.write("solid m\n")
        for n, t in tris:
            o.write(" facet normal %g %g %g\n  outer loop\n" % n)
            for v in t: o.write("   vertex %g %g %g\n" % v)
            o.write("  endloop\n endfacet\n")
        o.write("endsolid m\n")
# an edge that ends on the edges of a face above it, with both ends hidden
tri = [((0,0,1), ((0,0,2),(4,0,2),(0,4,2)))]
for i, (a, b) in enumerate([((0,0,0),(0,4,0)), ((0,0,0),(4,0,0)), ((4,0,0),(0,4,0)), ((0,1,0),(1,0,0)), ((0,2,1),(2,2,1)), ((0,0,1),(2,2,1)), ((0,2,0),(2,0,0)), ((1,0,0),(0,4,0)), ((0,0,0),(0,0.5,0))]):
    tri.append(((0,0,1), (a, b, (a[0]+.25, a[1]+.3, a[2]))))
stl("a.stl", tri)
P
printf 'load a = "a.stl"; page { draw a { @[0,0]; } }\n' >s.txt
tool --script=s.txt --output=o.ps --notimestamp
if grep -q "Sanitizer\|runtime error" "$T/err"; then fail "out of bounds"; fi
[ $rc = 0 ] || [ $rc = 1 ] || fail "status $rc"
''', "an edge whose two ends are hidden by a face and lie on or cross all of its edges", "an array on the stack overflows")

bug("c09-line-reserve", "C09", [
    (T, '''    LOG(ERROR) << line_number << ": Unknown line: '" << line << "'";
''', '''    LOG(ERROR) << line_number << ": Unknown line: '"
               << line.substr(line.find_first_not_of(" \\t\\r")) << "'";
'''),
], r'''
build
cd "$T"
pyramid 2 >a.stl
printf '   \n' >>a.stl
printf 'load a = "a.stl"; page { draw a { @[0,0]; } }\n' >s.txt
tool --script=s.txt --output=o.ps --notimestamp
[ $rc = 0 ] || [ $rc = 1 ] || fail "status $rc for a model with a blank line"
''', "a malformed model line that is empty or blank", "substr(npos) throws: the command is aborted instead of reporting the line")

bug("c09-normal-parse", "C09", [
    (T, '''    if (RE2::FullMatch(line, re_vertex, &x, &y, &z)) {
      points.push_back({x, y, z});
      continue;
    }
''', '''    std::string sx, sy, sz;
    if (RE2::FullMatch(line, re_vertex, &sx, &sy, &sz)) {
      points.push_back({std::stod(sx), std::stod(sy), std::stod(sz)});
      continue;
    }
'''),
], r'''
build
cd "$T"
pyramid 2 >a.stl
for n in e 1e999 - . 1e-999 --1; do
  sed "s/vertex 0 2 0/vertex 0 $n 0/" a.stl >b.stl
  printf 'load a = "b.stl"; page { draw a { @[0,0]; } }\n' >s.txt
  tool --script=s.txt --output=o.ps --notimestamp
  [ $rc = 0 ] || [ $rc = 1 ] || fail "status $rc for the coordinate $n"
done
''', "a coordinate that is made of the right characters but is no number, or out of range", "std::stod throws: the command is aborted")

bug("c09-closest-one", "C09", [
    ("stl-to-ps/ast.cc", "  for (const auto& p : c) ret.push_back(p.second);\n  return ret;\n", "  auto p = c.begin();\n  for (int i = 0; i < count; i++) ret.push_back((p++)->second);\n  return ret;\n"),
], r'''
export EXTRA="-fsanitize=address"
export ASAN_OPTIONS=detect_leaks=0
build
cd "$T"
cat >a.stl <<'X'
solid m
 facet normal 0 0 1
  outer loop
   vertex 1 0.03125 0
   vertex 1 -0.03125 0
   vertex 3 0 0
  endloop
 endfacet
endsolid m
X
printf 'load a = "a.stl"; page { draw a { @[0,0]; dia(at=[1,3,0], dir=[1,0,0], center=[0,0,0]); } }\n' >s.txt
tool --script=s.txt --output=o.ps --notimestamp
if grep -q AddressSanitizer "$T/err"; then fail "more points are read than there are"; fi
[ $rc = 0 ] || [ $rc = 1 ] || fail "status $rc"
''', "a diameter or center() of a drawing that has fewer than three distinct points (two of them count as one)", "more points are read than were found")
