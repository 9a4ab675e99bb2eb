// needs: src/outputs/logger.cpp
#include "common.hpp"
#include "features/primitives/histogram.hpp"
using namespace h;

// the bins of two directions are certainly the same / certainly different, away from the limits of the bins
struct Model
{
    struct P
    {
        double x, y;
        bool alive;
    };
    std::vector<P> points;
    size_t size = 0;

    // the bin of a point, in the (polar, azimuth) grid; the first polar row is one bin (all the azimuths are the same direction)
    std::pair<int, int> bin(const P& p) const
    {
        const double n = static_cast<double>(size - 1);
        const int x = static_cast<int>(std::floor(n * p.x / M_PI));
        const int y = x > 0 ? static_cast<int>(std::floor(n * (p.y + M_PI) / (2 * M_PI))) : 0;
        return {x, y};
    }
    std::map<std::pair<int, int>, std::vector<uint>> bins() const
    {
        std::map<std::pair<int, int>, std::vector<uint>> r;
        for (uint i = 0; i < points.size(); ++i)
            if (points[i].alive)
                r[bin(points[i])].push_back(i);
        return r;
    }
};

template<size_t Size> void history(Source& s, Ctx& c)
{
    c.label(cat("size ", Size));
    features::primitives::Histogram<Size> histogram;
    Model model;
    model.size = Size;
    const auto init = [&]() {
        const int n = static_cast<int>(s.draw(40));
        model.points.clear();
        matrixd points(n, 2);
        vectorb mask = vectorb::Zero(n);
        const int clusters = static_cast<int>(1 + s.draw(4));
        std::vector<std::pair<int, int>> centers;
        for (int k = 0; k < clusters; ++k)
            centers.emplace_back(s.draw(Size - 1), s.draw(Size - 1));
        for (int i = 0; i < n; ++i)
        {
            const auto [bx, by] = s.draw(4) ? s.pick(centers) : std::pair<int, int>(s.draw(Size - 1), s.draw(Size - 1));
            // inside of the bin: the rounding of its limits is not decided here
            double x = (bx + s.real(0.01, 0.99)) / (Size - 1) * M_PI, y = (by + s.real(0.01, 0.99)) / (Size - 1) * 2 * M_PI - M_PI;
            if (s.draw(12) == 0)
                y = M_PI; // the last azimuth
            if (s.draw(12) == 0)
                x = 0;
            if (s.draw(12) == 0)
                x = M_PI;
            mask[i] = s.draw(6) != 0;
            points(i, 0) = x;
            points(i, 1) = y;
            model.points.push_back({x, y, static_cast<bool>(mask[i])});
        }
        histogram.init_histogram(points, mask);
    };
    int removals = 0;
    init();
    const int steps = static_cast<int>(1 + s.draw(30));
    for (int k = 0; k <= steps; ++k)
    {
        const auto bins = model.bins();
        size_t most = 0;
        for (const auto& [b, ids]: bins)
            most = std::max(most, ids.size());
        std::vector<uint> got = histogram.get_points_from_most_frequent_bin();
        std::sort(got.begin(), got.end());
        if (bins.size() > 1 and most > 1 and removals > 0)
            c.nontrivial();
        bool found = most == 0 and got.empty();
        for (const auto& [b, ids]: bins)
            if (ids.size() == most and std::vector<uint>(got) == ids)
                found = true;
        std::string list;
        for (const uint i: got)
            list += cat(i, " ");
        PBT_CHECK(c, "most-frequent", found, "got the points ", list, " the fullest bin has ", most, " points, after ", removals, " removals");
        if (k == steps)
            break;
        const uint64_t op = s.draw(12);
        if (op == 11)
        {
            histogram.reset();
            model.points.clear();
            removals = 0;
            init();
            c.label("reset");
        }
        else if (op >= 8)
        {
            // as the plane growing does: remove all the returned points
            for (const uint i: got)
            {
                histogram.remove_point(i);
                model.points[i].alive = false;
                ++removals;
            }
            c.note("remove the bin of ", got.size());
        }
        else if (not model.points.empty())
        {
            const uint i = static_cast<uint>(s.draw(model.points.size()));
            if (not model.points[i].alive)
                c.label("removed again");
            histogram.remove_point(i);
            model.points[i].alive = false;
            ++removals;
            c.note("remove ", i);
        }
    }
}

static void run(Source& s, Ctx& c)
{
    switch (s.draw(3))
    {
        case 0:
            return history<20>(s, c);
        case 1:
            return history<3>(s, c);
        default:
            return history<6>(s, c);
    }
}

PBT_MAIN((pbt::Property {.id = "P30",
                         .rule = "histories of removals and resets over up to 40 directions grouped in a few bins; non-trivial: the fullest "
                                 "bin is asked after a removal, among several bins, with at least two points",
                         .run = run}))
