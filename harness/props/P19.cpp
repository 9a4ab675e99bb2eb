// needs: src/outputs/map_writer.cpp src/outputs/logger.cpp
#include "common.hpp"
#include "outputs/map_writer.hpp"
#include <memory>
using namespace h;

// What is in a map file, as a reader of its format understands it
struct Content
{
    std::vector<vector3> points;
    std::vector<std::vector<vector3>> lines;
    std::vector<std::vector<vector3>> faces;
};

static std::vector<std::string> read_lines(Ctx& c, const std::string& path)
{
    std::ifstream f(path);
    PBT_CHECK(c, "file-missing", f.good(), "no file ", path);
    std::vector<std::string> r;
    std::string l;
    while (std::getline(f, l))
        r.push_back(l);
    return r;
}

static std::vector<std::string> words(const std::string& l)
{
    std::istringstream i(l);
    std::vector<std::string> r;
    std::string w;
    while (i >> w)
        r.push_back(w);
    return r;
}

static double number(Ctx& c, const std::string& w)
{
    char* end = nullptr;
    const double v = std::strtod(w.c_str(), &end);
    PBT_CHECK(c, "not-a-number", end != w.c_str() and *end == 0, "'", w, "' should be a number");
    return v;
}

static vector3 vertex(Ctx& c, const std::vector<std::string>& w, size_t first)
{
    PBT_CHECK(c, "vertex", w.size() >= first + 3, "a vertex has three coordinates, read ", w.size() - first);
    return vector3(number(c, w[first]), number(c, w[first + 1]), number(c, w[first + 2]));
}

static Content read_xyz(Ctx& c, const std::string& path)
{
    Content r;
    for (const auto& l: read_lines(c, path))
    {
        const auto w = words(l);
        if (w.empty() or w[0][0] == '#')
            continue;
        r.points.push_back(vertex(c, w, 0));
    }
    return r;
}

static Content read_pcd(Ctx& c, const std::string& path)
{
    Content r;
    bool isData = false;
    long count = -1;
    for (const auto& l: read_lines(c, path))
    {
        const auto w = words(l);
        if (w.empty() or w[0][0] == '#')
            continue;
        if (isData)
            r.points.push_back(vertex(c, w, 0));
        else if (w[0] == "DATA")
            isData = true;
        else if (w[0] == "POINTS")
        {
            PBT_CHECK(c, "pcd-header", w.size() == 2, "POINTS line: ", l);
            count = static_cast<long>(number(c, w[1]));
        }
    }
    PBT_CHECK(c, "pcd-header", isData, "no DATA line");
    PBT_CHECK(c, "pcd-count", count == static_cast<long>(r.points.size()), "the header announces ", count, " points, the file has ", r.points.size());
    return r;
}

static Content read_obj(Ctx& c, const std::string& path)
{
    Content r;
    std::vector<vector3> v;
    for (const auto& l: read_lines(c, path))
    {
        const auto w = words(l);
        if (w.empty() or w[0][0] == '#')
            continue;
        if (w[0] == "v")
        {
            v.push_back(vertex(c, w, 1));
            continue;
        }
        if (w[0] != "p" and w[0] != "l" and w[0] != "f")
            continue;
        std::vector<vector3> element;
        for (size_t i = 1; i < w.size(); ++i)
        {
            const std::string index = w[i].substr(0, w[i].find('/'));
            const long k = static_cast<long>(number(c, index));
            PBT_CHECK(c, "obj-index", k >= 1 and k <= static_cast<long>(v.size()), "element '", l, "' references the vertex ", k, " of ", v.size());
            element.push_back(v[k - 1]);
        }
        if (w[0] == "p")
            r.points.insert(r.points.end(), element.begin(), element.end());
        else if (w[0] == "l")
            r.lines.push_back(element);
        else
            r.faces.push_back(element);
    }
    return r;
}

// text files with the default precision of the streams: 6 significant digits
static bool same(const vector3& a, const vector3& b)
{
    for (int i = 0; i < 3; ++i)
        if (not pbt::close(a[i], b[i], 2e-5, 1e-300))
            return false;
    return true;
}
static bool same(const std::vector<vector3>& a, const std::vector<vector3>& b)
{
    if (a.size() != b.size())
        return false;
    for (size_t i = 0; i < a.size(); ++i)
        if (not same(a[i], b[i]))
            return false;
    return true;
}
// same cycle of points, in the same rotation sense
static bool same_ring(std::vector<vector3> a, const std::vector<vector3>& b)
{
    if (a.size() == b.size() + 1 and same(a.front(), a.back()))
        a.pop_back();
    for (size_t k = 0; k < a.size(); ++k)
    {
        if (same(a, b))
            return true;
        std::rotate(a.begin(), a.begin() + 1, a.end());
    }
    return a.empty() and b.empty();
}

static std::string str(const std::vector<vector3>& l)
{
    std::string r;
    for (const auto& p: l)
        r += cat("(", p.x(), " ", p.y(), " ", p.z(), ") ");
    return r;
}

static vector3 coordinates(Source& s)
{
    switch (s.draw(4))
    {
        case 0:
            return vector3(s.integer(-9, 9), s.integer(-9, 9), s.integer(-9, 9));
        case 1:
            return vector3(s.sym(1e7), s.sym(1e7), s.sym(1e7));
        case 2:
            return vector3(s.sym(1e-5), s.sym(1e-5), s.sym(1e-5));
        default:
            return vector3(s.sym(6000), s.sym(6000), s.sym(6000));
    }
}

static void run(Source& s, Ctx& c)
{
    const int writerCount = static_cast<int>(1 + s.draw(2));
    struct W
    {
        int kind;
        std::string name;
        std::unique_ptr<outputs::IMap_Writer> writer;
        Content expected;
    };
    std::vector<W> ws;
    for (int i = 0; i < writerCount; ++i)
    {
        W w;
        w.kind = static_cast<int>(s.draw(3));
        w.name = cat("map", i, s.boolean() ? ".v2" : "");
        // a previous file is replaced
        if (s.draw(4) == 0)
            std::ofstream(w.name + (w.kind == 0 ? ".xyz" : (w.kind == 1 ? ".pcd" : ".obj"))) << std::string(2000, 'z') << "\n1 2 3\n";
        if (w.kind == 0)
            w.writer = std::make_unique<outputs::XYZ_Map_Writer>(w.name);
        else if (w.kind == 1)
            w.writer = std::make_unique<outputs::PCD_Map_Writer>(w.name);
        else
            w.writer = std::make_unique<outputs::OBJ_Map_Writer>(w.name);
        ws.push_back(std::move(w));
    }
    const int operations = s.chance(20) ? static_cast<int>(100 + s.draw(400)) : static_cast<int>(s.draw(25));
    size_t kinds = 0;
    for (int k = 0; k < operations; ++k)
    {
        W& w = ws[s.draw(ws.size())];
        const uint64_t op = s.draw(6);
        kinds |= 1u << op;
        if (op <= 2)
        {
            const vector3 p = coordinates(s);
            w.writer->add_point(p);
            w.expected.points.push_back(p);
            c.note(w.name, " point ", p.transpose());
        }
        else if (op == 3)
        {
            std::vector<vector3> l;
            const int n = static_cast<int>(2 + s.draw(4));
            for (int i = 0; i < n; ++i)
                l.push_back(coordinates(s));
            w.writer->add_line(l);
            if (w.kind == 2)
                w.expected.lines.push_back(l);
            c.note(w.name, " line ", str(l));
        }
        else
        {
            // closed boundary, as given by the polygons
            std::vector<vector3> l;
            const int n = s.chance(12) ? 0 : static_cast<int>(3 + s.draw(8));
            for (int i = 0; i < n; ++i)
                l.push_back(coordinates(s));
            std::vector<vector3> closed = l;
            if (n)
                closed.push_back(l.front());
            w.writer->add_polygon(closed, vector3::UnitZ());
            if (w.kind == 2 and n)
            {
                std::reverse(l.begin(), l.end());
                w.expected.faces.push_back(l);
            }
            c.note(w.name, " polygon ", str(closed));
        }
    }
    // close the files
    for (W& w: ws)
        w.writer.reset();
    if ((kinds & 7) and (kinds & 8) and (kinds & 48))
        c.nontrivial();
    for (const W& w: ws)
    {
        c.label(w.kind == 0 ? "xyz" : (w.kind == 1 ? "pcd" : "obj"));
        const Content got = w.kind == 0 ? read_xyz(c, w.name + ".xyz") : (w.kind == 1 ? read_pcd(c, w.name + ".pcd") : read_obj(c, w.name + ".obj"));
        PBT_CHECK(c, "points", same(got.points, w.expected.points), "points read: ", str(got.points), " written: ", str(w.expected.points));
        PBT_CHECK(c, "lines", got.lines.size() == w.expected.lines.size(), "lines read: ", got.lines.size(), " written: ", w.expected.lines.size());
        for (size_t i = 0; i < got.lines.size(); ++i)
            PBT_CHECK(c, "line", same(got.lines[i], w.expected.lines[i]), "line ", i, " read: ", str(got.lines[i]), " written: ", str(w.expected.lines[i]));
        PBT_CHECK(c, "faces", got.faces.size() == w.expected.faces.size(), "faces read: ", got.faces.size(), " written: ", w.expected.faces.size());
        for (size_t i = 0; i < got.faces.size(); ++i)
            PBT_CHECK(c, "face", same_ring(got.faces[i], w.expected.faces[i]), "face ", i, " read: ", str(got.faces[i]), " expected: ", str(w.expected.faces[i]));
    }
}

PBT_MAIN((pbt::Property {.id = "P19",
                         .rule = "sequences of up to 500 points, lines and polygons given to one or two writers of any format; non-trivial: "
                                 "points, lines and polygons are mixed",
                         .run = run}))
