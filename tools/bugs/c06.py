S = "stl-to-ps/stl-to-ps.cc"
LOOP = '''      for (const auto& p : load_paths) {
        model.open(p + "/" + file, std::ios::in);
        if (model.rdstate() == std::ios_base::goodbit) break;
      }
'''
bug("c06-forbidden-stops", "C06", [
    (S, '#include <fstream>\n', '#include <cerrno>\n#include <fstream>\n'),
    (S, '''        if (model.rdstate() == std::ios_base::goodbit) break;
      }
''', '''        if (model.rdstate() == std::ios_base::goodbit) break;
        // Only a missing file is worth another try; anything else would be
        // hidden behind the last entry's error.
        if (errno != ENOENT) break;
      }
''')], r'''
build
cd "$T"
mkdir d1 d2 d3
ln -s loop.stl d1/loop.stl
pyramid 2 >d2/loop.stl
pyramid 1 >d1/ok.stl
printf 'load a = "loop.stl"; page { draw a { @[0,0]; } }\n' >s.txt
tool --script=s.txt --output=o.ps --notimestamp --load_path=d1,d2
[ $rc = 0 ] || fail "an entry that could not be opened hid the later one that has the model"
''', "a load-path entry whose open fails with something else than 'no such file' (forbidden, a loop of links, an I/O error, out of handles), and a later entry that has the model",
    "the search stops at that entry and the model is reported as unreadable although a later entry has it")

bug("c06-last-hit-first", "C06", [
    (S, LOOP, '''      // Models of a script usually lie side by side, so start where the last one
      // was found.
      static thread_local size_t hit = 0;
      for (size_t i = 0; i < load_paths.size(); i++) {
        const size_t at = (hit + i) % load_paths.size();
        model.open(load_paths[at] + "/" + file, std::ios::in);
        if (model.rdstate() == std::ios_base::goodbit) {
          hit = at;
          break;
        }
      }
''')], r'''
build
cd "$T"
mkdir d1 d2
pyramid 1 >d2/a.stl
pyramid 2 >d1/b.stl
pyramid 3 >d2/b.stl
printf 'load a = "a.stl"; load b = "b.stl"; page { draw b { @[0,0]; } }\n' >s.txt
tool --script=s.txt --output=o.ps --notimestamp --load_path=d1,d2
[ $rc = 0 ] || fail "valid script rejected"
cp o.ps got.ps
printf 'load b = "b.stl"; page { draw b { @[0,0]; } }\n' >s.txt
tool --script=s.txt --output=o.ps --notimestamp --load_path=d1,d2
cmp -s got.ps o.ps || fail "b was taken from another directory because a was found there"
''', "two models, the first found only in a later entry, the second in both an earlier and that later entry",
    "the entry of the previous hit is searched first, so the second model comes from the wrong directory")

bug("c06-slash-given", "C06", [
    (S, "    if (file.find('/') == 0) {\n", "    if (file.find('/') != std::string::npos) {  // names its place\n")], r'''
build
cd "$T"
mkdir -p d1/sub
pyramid 2 >d1/sub/a.stl
printf 'load a = "sub/a.stl"; page { draw a { @[0,0]; } }\n' >s.txt
tool --script=s.txt --output=o.ps --notimestamp --load_path=d1
[ $rc = 0 ] || fail "sub/a.stl was not looked up in the load path"
''', "a relative name with a directory part, present only below a load-path entry",
    "a name with a slash is opened as written and never searched along the load path")

bug("c06-script-dir", "C06", [
    (S, LOOP, LOOP + '''      if (model.rdstate() != std::ios_base::goodbit) {
        // Scripts are often shipped together with their models.
        const std::string& s = doc_model.source_file();
        model.open(s.substr(0, s.rfind('/') + 1) + file, std::ios::in);
      }
'''),
    (S, "        if (model.rdstate() == std::ios_base::goodbit) break;\n      }\n      if", "        if (model.is_open()) break;\n      }\n      if"),
], r'''
build
cd "$T"
mkdir -p proj
pyramid 2 >proj/a.stl
printf 'load a = "a.stl"; page { draw a { @[0,0]; } }\n' >proj/s.txt
tool --script=proj/s.txt --output=o.ps --notimestamp
[ $rc != 0 ] || fail "a model beside the script was drawn although it is in no load-path entry"
''', "a script in another directory than the current one, with a model beside it that no load-path entry has",
    "files outside of the load path are opened and drawn as models")

bug("c06-dot-last", "C06", [
    (S, '      r.insert(r.begin(), ".");\n', '      r.push_back(".");\n')], r'''
build
cd "$T"
mkdir d1
pyramid 2 >a.stl
pyramid 3 >d1/a.stl
printf 'load a = "a.stl"; page { draw a { @[0,0]; } }\n' >s.txt
tool --script=s.txt --output=want.ps --notimestamp
tool --script=s.txt --output=o.ps --notimestamp --load_path=d1
[ $rc = 0 ] || fail "valid script rejected"
cmp -s want.ps o.ps || fail "the load path hid the model in the current directory"
''', "the same relative name in the current directory and in a load-path entry",
    "the current directory is searched after the load path")

bug("c06-trim-entries", "C06", [
    (S, '''      std::vector<std::string> r =
          absl::StrSplit(absl::GetFlag(FLAGS_load_path), ',',
                         absl::SkipEmpty());
''', '''      std::vector<std::string> r;
      for (absl::string_view p :
           absl::StrSplit(absl::GetFlag(FLAGS_load_path), ',')) {
        // Allow "dir1, dir2".
        while (!p.empty() && p.front() == ' ') p.remove_prefix(1);
        while (!p.empty() && p.back() == ' ') p.remove_suffix(1);
        if (!p.empty()) r.emplace_back(p);
      }
''')], r'''
build
cd "$T"
mkdir d1 ' d1'
pyramid 2 >d1/a.stl
pyramid 3 >' d1/a.stl'
printf 'load a = "a.stl"; page { draw a { @[0,0]; } }\n' >s.txt
cp s.txt ' d1'
(cd ' d1' && tool --script=s.txt --output=../want.ps --notimestamp)
tool --script=s.txt --output=o.ps --notimestamp "--load_path= d1"
cmp -s want.ps o.ps || fail "the entry ' d1' was taken for 'd1'"
''', "a load-path entry whose directory name begins or ends with a blank",
    "another directory than the one given is searched")
