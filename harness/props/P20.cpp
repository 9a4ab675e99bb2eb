// needs: src/parameters.cpp src/utils/angle_utils.cpp src/utils/camera_transformation.cpp src/outputs/logger.cpp
#include "common.hpp"
using namespace h;

enum class Kind
{
    Size,
    Focal,
    Center,
    Translation,
    Rotation
};
struct Field
{
    const char* name;
    Kind kind;
};
static const std::vector<Field> fields = {
        {"camera_1_size_x", Kind::Size},
        {"camera_1_size_y", Kind::Size},
        {"camera_1_focal_x", Kind::Focal},
        {"camera_1_focal_y", Kind::Focal},
        {"camera_1_center_x", Kind::Center},
        {"camera_1_center_y", Kind::Center},
        {"camera_2_size_x", Kind::Size},
        {"camera_2_size_y", Kind::Size},
        {"camera_2_focal_x", Kind::Focal},
        {"camera_2_focal_y", Kind::Focal},
        {"camera_2_center_x", Kind::Center},
        {"camera_2_center_y", Kind::Center},
        {"camera_2_translation_offset_x", Kind::Translation},
        {"camera_2_translation_offset_y", Kind::Translation},
        {"camera_2_translation_offset_z", Kind::Translation},
        {"camera_2_rotation_offset_x", Kind::Rotation},
        {"camera_2_rotation_offset_y", Kind::Rotation},
        {"camera_2_rotation_offset_z", Kind::Rotation},
};

struct Value
{
    bool present = true;
    double v = 0;      // NaN: not a number
    std::string text;
};

static Value gen_value(Source& s, Kind kind, bool isWrong)
{
    Value r;
    const auto set = [&](double v) {
        r.v = v;
        r.text = num(v);
    };
    if (isWrong)
    {
        switch (s.draw(5))
        {
            case 0:
                if (kind == Kind::Size or kind == Kind::Focal)
                {
                    r.present = false;
                    r.v = 0;
                    return r;
                }
                [[fallthrough]];
            case 1:
                r.v = NAN;
                r.text = ".Nan";
                return r;
            case 2:
                r.v = NAN;
                r.text = s.boolean() ? "wide" : "\"640\"";
                return r;
            case 3:
                r.v = INFINITY;
                r.text = s.boolean() ? ".Inf" : "-.Inf";
                return r;
            default:
                if (kind == Kind::Size)
                {
                    r.v = -static_cast<double>(s.draw(2000));
                    r.text = cat(static_cast<long>(r.v));
                    return r;
                }
                if (kind == Kind::Focal)
                {
                    set(-s.real(0, 1000));
                    return r;
                }
                if (kind == Kind::Center)
                {
                    set(-s.logreal(1e-6, 1e4));
                    return r;
                }
                r.v = NAN;
                r.text = "[ 1, 2 ]";
                return r;
        }
    }
    switch (kind)
    {
        case Kind::Size:
            r.v = static_cast<double>(1 + s.draw(s.boolean() ? 4000 : 20));
            r.text = cat(static_cast<long>(r.v));
            break;
        case Kind::Focal:
            set(s.boolean() ? s.real(1, 3000) : s.logreal(1e-3, 1e6));
            break;
        case Kind::Center:
            set(s.draw(6) ? s.real(0, 3000) : 0);
            if (r.v == 0 and s.boolean())
                r.present = false;
            break;
        case Kind::Translation:
            set(s.sym(500));
            if (s.draw(4) == 0)
            {
                r.v = 0;
                r.present = false;
            }
            break;
        case Kind::Rotation:
            set(s.draw(5) ? s.sym(M_PI) : 0);
            if (r.v == 0 and s.boolean())
                r.present = false;
            break;
    }
    // an integer is a number
    if (r.present and kind != Kind::Size and s.draw(6) == 0)
    {
        r.v = std::round(r.v);
        r.text = cat(static_cast<long>(r.v));
        if (kind == Kind::Focal and r.v < 1)
        {
            r.v = 1;
            r.text = "1";
        }
    }
    return r;
}

static void check_values(Ctx& c, const std::vector<double>& v)
{
    const auto s1 = Parameters::get_camera_1_image_size();
    const auto s2 = Parameters::get_camera_2_image_size();
    const vector2 f1 = Parameters::get_camera_1_focal(), f2 = Parameters::get_camera_2_focal();
    const vector2 c1 = Parameters::get_camera_1_center(), c2 = Parameters::get_camera_2_center();
    const double got[12] = {static_cast<double>(s1.x()), static_cast<double>(s1.y()), f1.x(), f1.y(), c1.x(), c1.y(),
                            static_cast<double>(s2.x()), static_cast<double>(s2.y()), f2.x(), f2.y(), c2.x(), c2.y()};
    for (int i = 0; i < 12; ++i)
        PBT_CHECK(c, "value", pbt::close(got[i], v[i], 1e-6, 1e-9), fields[i].name, " is ", got[i], " instead of ", v[i]);
    for (int k = 0; k < 2; ++k)
    {
        const matrix33 m = k ? Parameters::get_camera_2_intrinsics() : Parameters::get_camera_1_intrinsics();
        matrix33 e;
        e << v[6 * k + 2], 0, v[6 * k + 4], 0, v[6 * k + 3], v[6 * k + 5], 0, 0, 1;
        PBT_CHECK(c, "intrinsics", near(m, e, 1e-6, 1e-9), "camera ", k + 1, " matrix ", show(m), " instead of ", show(e));
    }
    const matrix44 t = Parameters::get_camera_2_to_camera_1_transformation();
    const auto rot = [](double a, int axis) {
        matrix33 m = matrix33::Identity();
        const int i = (axis + 1) % 3, j = (axis + 2) % 3;
        m(i, i) = m(j, j) = std::cos(a);
        m(i, j) = -std::sin(a);
        m(j, i) = std::sin(a);
        return m;
    };
    matrix44 e = matrix44::Identity();
    e.block<3, 3>(0, 0) = rot(v[17], 0) * rot(v[16], 1) * rot(v[15], 2);
    e.block<3, 1>(0, 3) = vector3(v[12], v[13], v[14]);
    PBT_CHECK(c, "offset", near(matrix44(t), e, 1e-6, 1e-6), "camera 2 offset ", show(t), " instead of ", show(e));
}

static const std::vector<double> defaults = {640, 480, 550, 550, 320, 240, 640, 480, 550, 550, 320, 240, 0, 0, 0, 0, 0, 0};

static void parse_one(Source& s, Ctx& c, int& loaded)
{
    const uint64_t what = s.draw(12);
    if (what == 11)
    {
        c.label("missing file");
        PBT_CHECK(c, "missing", not Parameters::parse_file("nowhere.yaml"), "a file that does not exist is accepted");
        PBT_CHECK(c, "missing", Parameters::is_valid(), "the default parameters are not valid");
        check_values(c, defaults);
        return;
    }
    if (what == 10)
    {
        c.label("defaults");
        Parameters::load_defaut();
        PBT_CHECK(c, "default", Parameters::is_valid(), "the default parameters are not valid");
        check_values(c, defaults);
        return;
    }
    // 0-4: valid, 5-8: one or two wrong values, 9: damaged text
    std::vector<Value> values(fields.size());
    std::set<size_t> wrong;
    if (what >= 5 and what <= 8)
    {
        wrong.insert(s.draw(fields.size()));
        if (s.draw(4) == 0)
            wrong.insert(s.draw(fields.size()));
    }
    for (size_t i = 0; i < fields.size(); ++i)
        values[i] = gen_value(s, fields[i].kind, wrong.count(i) > 0);
    std::vector<std::string> lines;
    for (size_t i = 0; i < fields.size(); ++i)
        if (values[i].present)
            lines.push_back(cat(fields[i].name, ":", s.boolean() ? " " : "   ", values[i].text));
    // any order, comments and other values
    for (size_t i = lines.size(); i > 1 and s.draw(8) != 0; --i)
        std::swap(lines[i - 1], lines[s.draw(i)]);
    std::string text = "%YAML:1.0\n";
    if (s.boolean())
        text += "---\n";
    for (const auto& l: lines)
    {
        if (s.draw(8) == 0)
            text += "\n# a comment\n";
        if (s.draw(12) == 0)
            text += cat("starting_position_", static_cast<char>('x' + s.draw(3)), ": 1.0\n");
        text += l + "\n";
    }
    bool isDamaged = false;
    if (what == 9)
    {
        isDamaged = true;
        const int count = static_cast<int>(1 + s.draw(4));
        for (int i = 0; i < count; ++i)
        {
            const size_t at = s.draw(text.size());
            switch (s.draw(4))
            {
                case 0:
                    text.resize(at);
                    break;
                case 1:
                    text.erase(at, 1 + s.draw(10));
                    break;
                case 2:
                    text.insert(at, 1, static_cast<char>(s.pick(std::vector<int> {'\n', ':', '[', '{', '"', ' ', '-', '&', '\t', ']', '9', 0x80, '<'})));
                    break;
                default:
                    text[at] = static_cast<char>(s.draw(255) + 1);
            }
            if (text.empty())
                text = " ";
        }
    }
    std::ofstream("p20.yaml", std::ios::trunc) << text;
    c.note("file:\n", text);
    const bool result = Parameters::parse_file("p20.yaml");
    ++loaded;
    if (isDamaged)
    {
        c.label("damaged text");
        if (result)
            PBT_CHECK(c, "damaged", Parameters::is_valid(), "accepted but not valid");
    }
    else
    {
        bool isValid = true;
        std::vector<double> v;
        for (size_t i = 0; i < fields.size(); ++i)
        {
            const double x = values[i].v;
            v.push_back(x);
            if (not std::isfinite(x) or (fields[i].kind <= Kind::Focal and x <= 0) or (fields[i].kind == Kind::Center and x < 0))
            {
                isValid = false;
                c.note("wrong: ", fields[i].name);
            }
        }
        c.label(isValid ? "valid" : "invalid value");
        PBT_CHECK(c, "validity", result == isValid, "parse_file returned ", result, " for a file that is ", isValid ? "valid" : "not valid");
        PBT_CHECK(c, "validity", Parameters::is_valid() == isValid, "is_valid is ", Parameters::is_valid(), " for a file that is ", isValid ? "valid" : "not valid");
        if (isValid)
            check_values(c, v);
    }
    // whatever was accepted is a camera
    if (Parameters::is_valid())
    {
        const vector2 f1 = Parameters::get_camera_1_focal(), f2 = Parameters::get_camera_2_focal();
        const vector2 c1 = Parameters::get_camera_1_center(), c2 = Parameters::get_camera_2_center();
        const auto s1 = Parameters::get_camera_1_image_size(), s2 = Parameters::get_camera_2_image_size();
        const bool isOk = f1.allFinite() and f2.allFinite() and f1.minCoeff() > 0 and f2.minCoeff() > 0 and c1.allFinite() and c2.allFinite() and
                          c1.minCoeff() >= 0 and c2.minCoeff() >= 0 and s1.minCoeff() > 0 and s2.minCoeff() > 0 and
                          s1.maxCoeff() <= 0x7fffffff and s2.maxCoeff() <= 0x7fffffff and
                          matrix44(Parameters::get_camera_2_to_camera_1_transformation()).allFinite();
        PBT_CHECK(c, "accepted", isOk, "accepted: focals ", f1.transpose(), " ", f2.transpose(), " centers ", c1.transpose(), " ", c2.transpose(), " sizes ", s1.transpose(),
                  " ", s2.transpose());
    }
}

static void run(Source& s, Ctx& c)
{
    const int n = static_cast<int>(1 + s.draw(4));
    int loaded = 0;
    for (int i = 0; i < n; ++i)
        parse_one(s, c, loaded);
    if (loaded > 1)
        c.nontrivial();
}

PBT_MAIN((pbt::Property {.id = "P20",
                         .rule = "sequences of up to four configurations: valid files (any order, comments, optional values), files with a wrong "
                                 "value, damaged texts, missing files and defaults; non-trivial: at least two files are read by the same program",
                         .run = run}))
