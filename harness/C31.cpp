// C31: project file names decompose, compose and relate consistently.
#include "pbt.h"
#include "filesystem/Project.h"
#include <iostream>
#include <sstream>
#include <algorithm>
#include <cerrno>
#include <climits>
#include <cstring>
#include <dirent.h>
#include <functional>
#include <grp.h>
#include <map>
#include <memory>
#include <set>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using SEMBA::FileSystem::Project;

namespace fs { namespace {
// Empties a folder without following links.
void clear(const std::string& d) { std::vector<std::string> n; DIR* h = opendir(d.c_str()); if (!h) return; while (dirent* e = readdir(h)) { std::string x = e->d_name; if (x != "." && x != "..") n.push_back(d + "/" + x); } closedir(h); for (auto& x : n) { struct stat s; if (lstat(x.c_str(), &s) == 0 && S_ISDIR(s.st_mode)) { clear(x); rmdir(x.c_str()); } else unlink(x.c_str()); } }
// The operations on folders run in a process of an unprivileged user that owns nothing but the scratch folder.
void contained(const std::function<void()>& f) {
    const std::string s = pbt::scratch(), up = s.substr(0, s.rfind('/')); int fd[2]; if (pipe(fd)) FAIL("pipe");
    bool root = geteuid() == 0; if (root) { if (chmod(up.c_str(), 0711) || chown(s.c_str(), 65534, 65534)) FAIL("scratch folder"); }
    pid_t p = fork();
    if (p == 0) {
        close(fd[0]); auto say = [&](const std::string& m, int code) { std::size_t w = 0; while (w < m.size()) { ssize_t k = write(fd[1], m.data() + w, m.size() - w); if (k <= 0) break; w += (std::size_t)k; } _exit(code); };
        if (root && (setgroups(0, nullptr) || setresgid(65534, 65534, 65534) || setresuid(65534, 65534, 65534) || setuid(0) == 0)) say("could not become an unprivileged user", 9);
        alarm(60); try { if (chdir(s.c_str())) say("chdir", 9); clear(s); f(); say("", 0); } catch (const pbt::Failure& x) { say(x.where + "\n" + x.msg, 7); } catch (const std::exception& e) { say(std::string("unexpected exception: ") + e.what(), 8); } catch (...) { say("unexpected exception", 8); }
    }
    close(fd[1]); std::string m; char b[512]; ssize_t k; while ((k = read(fd[0], b, sizeof b)) > 0) m.append(b, (std::size_t)k); close(fd[0]); int st = 0; waitpid(p, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 7) { auto n = m.find('\n'); throw pbt::Failure{"contained", m.substr(n + 1)}; }
    FAIL("the process " + std::string(WIFSIGNALED(st) ? "was killed by signal " + std::to_string(WTERMSIG(st)) : "ended with " + std::to_string(WEXITSTATUS(st))) + ": " + m);
}
std::string part(pbt::Gen& g) { return g.oneOf<std::string>({"a", "b", "proj", "my case", "x.y", "v1.2.gid", "sphere", ".hidden", "..c", "d.", "no ext", "é", "UPPER", "a-b_c", "1", "it's", "q\"q", "a&b", "p(1)", "s*r", "w?", "'quoted'", "$HOME", "#x", "~", "*", "-r", "a;b", "`x`", "a\\b"}); }
std::string file(pbt::Gen& g) { return g.chance(1, 3) ? part(g) : part(g) + g.oneOf<std::string>({".smb", ".gid", ".post.msh", ".txt", ".x", ".", ".tar.gz"}); }
std::string slashes(pbt::Gen& g) { return g.chance(1, 8) ? "//" : "/"; }
std::string genPath(pbt::Gen& g) { std::string p; if (g.chance(1, 3)) p = "/"; else if (g.chance(1, 4)) p = g.flip() ? "./" : "../"; std::size_t n = g.many(0, 3, 40); for (std::size_t i = 0; i < n; i++) p += part(g) + slashes(g); p += file(g); return p; }
// What POSIX says the last component and the folder before it are.
std::string lastPart(std::string p) { while (p.size() > 1 && p.back() == '/') p.pop_back(); if (p == "/" || p.empty()) return p.empty() ? "." : "/"; auto s = p.rfind('/'); return s == std::string::npos ? p : p.substr(s + 1); }
std::string folderOf(std::string p) { while (p.size() > 1 && p.back() == '/') p.pop_back(); auto s = p.rfind('/'); if (s == std::string::npos) return p == "/" ? "/" : "./"; p.resize(s); while (!p.empty() && p.back() == '/') p.pop_back(); return p + "/"; }
std::string extensionOf(const std::string& base) { auto d = base.rfind('.'); return d == std::string::npos || d == 0 ? "" : base.substr(d); }
struct Derived { std::string name, base, folder, ext, project, output, outputName, text; };
Derived derive(const Project& p) { Derived d; d.base = p.getBasename(); d.folder = p.getFolder(); d.ext = p.getExtension(); d.project = p.getProjectName(); d.output = p.getOutputFilename(); d.outputName = p.getOutputName(); d.name = p.getFilename(); d.text = p.toStr(); return d; }
void check(const Project& p, const std::string& name) {
    Derived d = derive(p); const std::string s = "'" + name + "'"; CHECK_EQ(d.name, name, "file name of " + s); CHECK_EQ(d.text, name, "text of " + s); CHECK_EQ(d.base, lastPart(name), "base name of " + s); CHECK_EQ(d.folder, folderOf(name), "folder of " + s);
    CHECK_EQ(d.ext, extensionOf(d.base), "extension of " + s); CHECK_EQ(d.project + d.ext, d.base, "project name and extension of " + s); CHECK_EQ(d.output, d.folder + d.project, "output file name of " + s); CHECK_EQ(d.outputName, d.project, "output name of " + s); CHECK_EQ(p.getFilename(), name, "file name after the queries of " + s);
}
std::string real(const std::string& p) { char b[PATH_MAX]; const char* r = realpath(p.c_str(), b); return r ? r : ""; }
bool exists(const std::string& p) { struct stat s; return lstat(p.c_str(), &s) == 0; }
bool folder(const std::string& p) { struct stat s; return stat(p.c_str(), &s) == 0 && S_ISDIR(s.st_mode); }
void touch(const std::string& p, const std::string& text = "x") { std::ofstream o(p.c_str()); o << text; CHECK((bool)o, "cannot write " + p); }
std::string slurp(const std::string& p) { std::ifstream i(p.c_str(), std::ios::binary); return std::string((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); }
// Every name below a folder, with its kind and contents.
void scan(const std::string& d, const std::string& at, std::map<std::string, std::string>& m) { DIR* h = opendir(d.c_str()); if (!h) return; while (dirent* e = readdir(h)) { std::string n = e->d_name; if (n == "." || n == "..") continue; struct stat s; std::string p = d + "/" + n, q = at + "/" + n; if (lstat(p.c_str(), &s)) continue; if (S_ISDIR(s.st_mode)) { m[q] = "folder"; scan(p, q, m); } else if (S_ISLNK(s.st_mode)) m[q] = "link"; else m[q] = "file " + slurp(p); } closedir(h); }
std::map<std::string, std::string> scan() { std::map<std::string, std::string> m; scan(pbt::scratch(), "", m); return m; }
std::string show(const std::map<std::string, std::string>& m) { std::string s; for (auto& p : m) s += p.first + "(" + p.second + ") "; return s; }
// A small tree: folders first, then files, all below the scratch folder.
struct Tree { std::vector<std::string> dirs, files; };
Tree genTree(pbt::Gen& g) { Tree t; t.dirs.push_back(""); std::size_t n = g.many(1, 7, 30); std::set<std::string> used; for (std::size_t i = 0; i < n; i++) { std::string p = g.pick(t.dirs) + part(g) + "/"; if (used.insert(p.substr(0, p.size() - 1)).second) t.dirs.push_back(p); } n = g.len(1, 7); for (std::size_t i = 0; i < n; i++) { std::string p = g.pick(t.dirs) + file(g); if (used.insert(p).second) t.files.push_back(p); } return t; }
void make(const Tree& t) { for (auto& d : t.dirs) if (d != "") { if (mkdir(d.c_str(), 0755)) FAIL("mkdir " + d); } for (auto& f : t.files) touch(f, "content of " + f); }
struct Mute { std::stringstream out, err; std::streambuf *o, *e; Mute() { o = std::cout.rdbuf(out.rdbuf()); e = std::cerr.rdbuf(err.rdbuf()); } ~Mute() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
}}
using namespace fs;

PROP(a_path_decomposes_into_folder_base_name_project_name_and_extension, 6000, 80000, "a path with a folder and a dot") {
    std::string n = genPath(g); if (g.chance(1, 6)) n += "/"; g << "'" << n << "'\n"; Project p(n), c(p); check(p, n); check(c, n); Project q; q.setFilename(n); check(q, n);
    Project back(p.getFolder() + p.getBasename()); CHECK_EQ(back.getFolder(), p.getFolder(), "folder composed back"); CHECK_EQ(back.getBasename(), p.getBasename(), "base name composed back"); Project whole(p.getOutputFilename() + p.getExtension()); CHECK_EQ(whole.getBasename(), p.getBasename(), "composed from the output name"); CHECK_EQ(whole.getFolder(), p.getFolder(), "folder composed from the output name");
    g.label(n.back() == '/', "trailing slash"); g.label(p.getExtension().empty(), "no extension"); auto s = n.rfind('/'); g.label(s != std::string::npos && n.find('.') < s && n.find('.', s) == std::string::npos, "dot in the folder only"); g.nontrivial(n.find('/') != std::string::npos && n.find('.') != std::string::npos);
}
PROP(a_new_file_name_changes_every_derived_name, 3000, 40000, "at least two changes") {
    std::string n = genPath(g); Project p(n); check(p, n); std::size_t k = g.len(1, 6); for (std::size_t i = 0; i < k; i++) { n = genPath(g); g << "'" << n << "'\n"; Project other(p); p.setFilename(n); check(p, n); check(other, other.getFilename()); if (g.flip()) { Project a; a = p; check(a, n); } } g.nontrivial(k >= 2);
}
PROP(a_path_relative_to_a_folder_resolved_there_is_the_file_itself, 2500, 30000, "a file below the folder") {
    Tree t = genTree(g); if (t.files.empty()) g.discard(); std::size_t fi = g.draw(t.files.size()); std::string f = t.files[fi]; bool absolute = g.flip(); std::vector<std::string> above; for (auto& d : t.dirs) if (f.compare(0, d.size(), d) == 0) above.push_back(d); bool inside = g.chance(3, 4); std::string d = inside ? g.pick(above) : g.pick(t.dirs); int how = g.range(0, 2); std::string other = "other.txt"; for (auto& x : t.files) if (x.substr(0, x.rfind('/') == std::string::npos ? 0 : x.rfind('/') + 1) == d && g.flip()) other = x.substr(d.size());
    inside = f.compare(0, d.size(), d) == 0; g << "file '" << f << "' folder '" << d << "' " << (absolute ? "absolute" : "") << " how " << how << " other " << other << "\n"; bool nested = inside; if (!absolute && !inside) g.discard(); // a relative path to elsewhere is left open
    contained([&] {
        make(t); std::string base = absolute ? pbt::scratch() + "/" : "", F = base + f, D = base + d; if (D.empty() && how == 1) how = 0; if (D.empty()) D = "./";
        Project file(F), rhs(how == 0 ? D : how == 1 ? D.substr(0, D.size() - 1) : D + other); if (how == 2 && !exists(rhs)) touch(rhs); Project r = file.relativeTo(rhs); std::string text = r.getFilename(); CHECK(!text.empty(), "empty relative path"); std::string at = text[0] == '/' ? text : D + text; CHECK_EQ(real(at), real(F), "'" + F + "' relative to '" + rhs.getFilename() + "' is '" + text + "', which");
        if (inside && absolute) CHECK(text[0] != '/', "an absolute path for a file inside the folder: " + text); CHECK_EQ(file.getFilename(), F, "the file"); CHECK_EQ(file.relativeTo(file).getFilename(), Project(F).getBasename(), "a file relative to itself");
    });
    g.label(how == 1, "folder without a slash"); g.label(how == 2, "relative to a file"); g.label(!inside, "elsewhere"); g.nontrivial(nested && !d.empty());
}
PROP(existence_and_kind_queries_agree_with_the_file_system, 2500, 30000, "files and folders") {
    Tree t = genTree(g); std::vector<int> modes; for (std::size_t i = 0; i < t.files.size(); i++) modes.push_back(g.oneOf<int>({0644, 0755, 0600, 0700, 0444, 0100})); std::string ghost = g.pick(t.dirs) + "ghost"; std::size_t cd = g.draw(t.dirs.size()); g << t.dirs.size() << " folders " << t.files.size() << " files\n"; std::vector<std::string> names; std::size_t probes = g.len(1, 5); for (std::size_t i = 0; i < probes; i++) names.push_back(genPath(g));
    contained([&] {
        make(t); for (std::size_t i = 0; i < t.files.size(); i++) if (chmod(t.files[i].c_str(), (mode_t)modes[i])) FAIL("chmod");
        for (int abs = 0; abs < 2; abs++) { std::string b = abs ? pbt::scratch() + "/" : "";
            for (auto& d : t.dirs) if (d != "") { CHECK(Project(b + d).isFolder(), "folder " + d); CHECK(Project(b + d.substr(0, d.size() - 1)).isFolder(), "folder without a slash " + d); CHECK_EQ(real(Project(b + d).getFullPath()), real(d), "full path of a folder"); CHECK_EQ(Project(b + d).getFullPath(), real(d) + "/", "full path of a folder"); }
            for (std::size_t i = 0; i < t.files.size(); i++) { Project p(b + t.files[i]); CHECK(!p.isFolder(), "a file is a folder: " + t.files[i]); CHECK_EQ(p.canOpen(), access(p.c_str(), R_OK) == 0, "file can be opened: " + t.files[i]); CHECK_EQ(p.canExecute(), (modes[i] & 0100) != 0, "file can be executed: " + t.files[i]); CHECK_EQ(p.getFullPath(), real(t.files[i]), "full path of " + t.files[i]); }
            Project no(b + ghost); for (int k = 0; k < 3; k++) { CHECK(!no.isFolder(), "an absent folder"); CHECK(!no.canOpen(), "an absent file can be opened"); CHECK(!no.canExecute(), "an absent file can be executed"); }
            std::string full; try { full = no.getFullPath(); } catch (const std::exception&) { full = ghost; } CHECK(full.size() >= 5 && full.substr(full.size() - 5) == "ghost", "full path of an absent file: " + full);
        }
        for (auto& n : names) CHECK_EQ(Project(n).isFolder(), folder(n), "folder '" + n + "'");
        Project here; here.setToCurrentWorkingDir(); CHECK_EQ(here.getFilename(), real("."), "current folder"); if (t.dirs[cd] != "") { std::string target = real(t.dirs[cd]); Project(t.dirs[cd]).changeDir(); CHECK_EQ(real("."), target, "folder changed to"); Project now; now.setToCurrentWorkingDir(); CHECK_EQ(now.getFilename(), target, "current folder"); here.changeDir(); CHECK_EQ(real("."), here.getFilename(), "folder changed back"); }
    });
    g.nontrivial(t.dirs.size() > 2 && t.files.size() > 1);
}
PROP(creating_and_removing_a_folder_changes_exactly_that_folder, 2500, 30000, "a history of three operations or more") {
    Tree t = genTree(g); struct Op { int kind; std::string dir; bool abs, slash; }; std::vector<Op> ops; std::size_t n = g.len(1, 8); std::vector<std::string> fresh; for (std::size_t i = 0; i < n; i++) { Op o; o.kind = g.range(0, 4); std::vector<std::string> pool(t.dirs.begin() + 1, t.dirs.end()); pool.insert(pool.end(), fresh.begin(), fresh.end()); if (o.kind <= 1 || pool.empty()) { o.dir = (g.flip() || pool.empty() ? std::string() : g.pick(pool)) + part(g) + "/"; if (o.kind > 1) o.kind = 0; fresh.push_back(o.dir); } else if (o.kind == 4 && !t.files.empty()) o.dir = g.pick(t.files); else { o.kind = 2; o.dir = g.pick(pool); } o.abs = g.flip(); o.slash = g.flip(); ops.push_back(o); g << "op " << o.kind << " '" << o.dir << "'\n"; }
    bool link = g.chance(1, 3); g << t.dirs.size() << " folders " << t.files.size() << " files\n"; for (auto& d : t.dirs) g << "dir '" << d << "' "; for (auto& d : t.files) g << "file '" << d << "' ";
    contained([&] {
        make(t); std::map<std::string, std::string> m = scan();
        for (auto& o : ops) {
            std::string d = o.dir, bare = d; if (bare.back() == '/') bare.pop_back(); Project p((o.abs ? pbt::scratch() + "/" : "") + (o.slash || d.back() != '/' ? d : bare)); std::string key = "/" + bare, up = bare.find('/') == std::string::npos ? "" : "/" + bare.substr(0, bare.rfind('/')); bool parent = up.empty() || (m.count(up) && m[up] == "folder"), dir = m.count(key) && m[key] == "folder", other = m.count(key) && !dir; std::string before = p.getFilename();
            if (o.kind <= 1) { bool threw = false; try { Mute mu; p.makeDir(); } catch (const std::exception&) { threw = true; } if (dir) CHECK(!threw, "creating a folder that is there: " + d); else if (other || !parent) CHECK(threw, "creating '" + d + "' reported no error"); else { CHECK(!threw, "folder '" + d + "' not created"); m[key] = "folder"; } }
            else { { Mute mu; p.rmDir(); } if (dir) { for (auto it = m.begin(); it != m.end();) if (it->first == key || it->first.compare(0, key.size() + 1, key + "/") == 0) m.erase(it++); else ++it; } }
            CHECK_EQ(p.getFilename(), before, "the name"); auto now = scan(); CHECK(now == m, std::string(o.kind <= 1 ? "created" : "removed") + " '" + p.getFilename() + "': have " + show(now) + " instead of " + show(m)); CHECK_EQ(p.isFolder(), m.count(key) && m[key] == "folder", "folder after the operation");
        }
        if (link && !exists("linked")) { if (mkdir("target", 0755) == 0) { touch("target/kept"); if (symlink("target", "linked")) FAIL("symlink"); { Mute mu; Project("linked").rmDir(); } CHECK(exists("target/kept"), "removing a link removed what it points to"); } }
    });
    g.label(link, "link"); g.nontrivial(n >= 3);
}
PROP(what_is_written_to_a_project_file_is_read_from_it, 1500, 20000, "text of several lines") {
    std::string n = file(g), text; std::size_t k = g.many(0, 6, 200); for (std::size_t i = 0; i < k; i++) text += g.text("abc 012.\t", 0, 12) + g.oneOf<std::string>({"\n", "\n", "\r\n", ""}); bool mode = g.flip(), over = g.flip(); g << "'" << n << "' " << text << "\n";
    contained([&] { Project p(n); if (over) touch(n, std::string(200, 'z')); { std::ofstream o; p.openFile(o, mode); CHECK(o.is_open(), "not open"); o << text; } CHECK_EQ(slurp(n), text, "written"); std::ifstream i; p.openAsInput(i); CHECK(i.is_open(), "not open for reading"); std::string back((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); CHECK_EQ(back, text, "read"); CHECK(p.canOpen(), "can be opened"); { Mute mu; p.printInfo(); CHECK(mu.out.str().find(n) != std::string::npos, "name shown"); } std::ifstream q; try { Project("absent").openAsInput(q); } catch (const std::exception&) {} CHECK(!q.is_open(), "an absent file is open"); });
    g.nontrivial(k > 1);
}
PROP(a_program_file_runs_with_the_arguments_given, 400, 5000, "at least one argument") {
    std::string n = g.pick(std::vector<std::string>{"run.sh", "my run.sh", "a'b.sh", "x&y", "p(1).sh", "d.d/run"}), args; std::size_t k = g.len(0, 3); std::string want; for (std::size_t i = 0; i < k; i++) { std::string w = g.text("abc0", 1, 5); args += (i ? " " : "") + w; want += w + "\n"; } bool exec = !g.chance(1, 4); g << "'" << n << "' " << args << "\n";
    contained([&] { if (n.find('/') != std::string::npos) mkdir(n.substr(0, n.find('/')).c_str(), 0755); touch(n, "#!/bin/sh\nfor i in \"$@\"; do echo \"$i\"; done > '" + pbt::scratch() + "/result'\n"); chmod(n.c_str(), exec ? 0755 : 0644); Project p(pbt::scratch() + "/" + n); if (!exec) { CHECK_THROWS(p.exec(args), "a file that cannot be executed"); CHECK(!exists("result"), "ran"); return; } p.exec(args); CHECK(exists("result"), "the program did not run"); CHECK_EQ(slurp("result"), want, "arguments of the program"); });
    g.nontrivial(k > 0);
}
