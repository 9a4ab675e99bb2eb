// needs: src/coordinates/*.cpp src/utils/*.cpp src/parameters.cpp src/outputs/logger.cpp src/tracking/motion_model.cpp third_party/concave_fitting.cpp
#include "common.hpp"
#include "tracking/motion_model.hpp"
using namespace h;

static double angle_between(const quaternion& a, const quaternion& b) { return a.angularDistance(b); }

static void run(Source& s, Ctx& c)
{
    tracking::Motion_Model model;
    vector3 last = vector3::Zero(), velocity = vector3::Zero();
    quaternion lastQ = quaternion::Identity(), angular = quaternion::Identity();
    bool isSet = false;
    const bool constant = s.draw(3) == 0;
    // a constant motion: world frame displacement and rotation at each step
    const vector3 stepT = gen_vector(s, 100);
    const quaternion stepQ = gen_small_quaternion(s, 1.0);
    vector3 position = gen_vector(s, 3000);
    quaternion rotation = gen_quaternion(s);
    int predictions = 0, sinceSet = 0;
    const int steps = constant ? 40 : static_cast<int>(1 + s.draw(15));
    for (int k = 0; k < steps; ++k)
    {
        if (not constant and s.draw(8) == 0)
        {
            if (s.draw(2))
            {
                model.reset();
                isSet = false;
                velocity.setZero();
                angular.setIdentity();
            }
            else
            {
                last = gen_vector(s, 3000);
                lastQ = gen_quaternion(s);
                model.reset(last, lastQ);
                isSet = true;
                velocity.setZero();
                angular.setIdentity();
            }
            PBT_CHECK(c, "reset", model.get_position_velocity().isZero() and angle_between(model.get_angular_velocity(), angular) < 1e-9, "");
            sinceSet = 0;
        }
        if (constant)
        {
            position += stepT;
            rotation = (stepQ * rotation).normalized();
        }
        else if (s.draw(3) == 0)
        {
            position = gen_vector(s, 3000);
            rotation = gen_quaternion(s);
        }
        else
        {
            position += gen_vector(s, 50);
            rotation = (gen_small_quaternion(s, 0.5) * rotation).normalized();
        }
        const matrix66 variance = gen_spd<6>(s, 1e-4, 100);
        const utils::Pose pose(position, rotation, variance);
        const bool increase = s.draw(3) != 0;
        const utils::Pose predicted = increase and s.draw(2) ? model.predict_next_pose(pose) : model.predict_next_pose(pose, increase);
        c.note("pose ", show(position.transpose()), " ", show(rotation.coeffs().transpose()), " predicted ", show(predicted.get_position().transpose()), " ",
               show(predicted.get_orientation_quaternion().coeffs().transpose()));
        PBT_CHECK(c, "unit", std::abs(predicted.get_orientation_quaternion().norm() - 1.0) < 1e-9, predicted.get_orientation_quaternion().norm());
        if (not isSet)
        {
            PBT_CHECK(c, "first-pose", near(predicted.get_position(), position, 0, 1e-9) and
                                               angle_between(predicted.get_orientation_quaternion(), rotation) < 1e-7 and
                                               near(predicted.get_pose_variance(), variance, 1e-12, 1e-12),
                      "the first prediction is not the given pose");
            isSet = true;
            last = position;
            lastQ = rotation;
            continue;
        }
        ++predictions;
        ++sinceSet;
        // reference: velocities averaged with the previous ones
        velocity = 0.5 * (position - last + velocity);
        const quaternion diff = rotation * lastQ.conjugate();
        const double halfTurn = std::abs(M_PI - angle_between(diff, angular));
        // halfway on the shortest arc
        quaternion b = angular;
        if (diff.dot(b) < 0)
            b.coeffs() = -b.coeffs();
        quaternion mid;
        mid.coeffs() = diff.coeffs() + b.coeffs();
        mid.normalize();
        PBT_CHECK(c, "linear", near(predicted.get_position(), vector3(position + velocity), 1e-9, 1e-9), "got ",
                  show(predicted.get_position().transpose()), " expected ", show((position + velocity).transpose()));
        PBT_CHECK(c, "linear-velocity", near(model.get_position_velocity(), velocity, 1e-9, 1e-9), "");
        if (halfTurn > 1e-3)
        {
            PBT_CHECK(c, "angular", angle_between(predicted.get_orientation_quaternion(), mid * rotation) < 1e-6, "error ",
                      angle_between(predicted.get_orientation_quaternion(), mid * rotation), " rad");
            PBT_CHECK(c, "angular-velocity", angle_between(model.get_angular_velocity(), mid) < 1e-6, "");
        }
        angular = model.get_angular_velocity();
        matrix66 expected = variance;
        if (increase)
            expected.diagonal() += (vector6() << 100, 100, 100, 0.01, 0.01, 0.01).finished();
        PBT_CHECK(c, "variance", near(predicted.get_pose_variance(), expected, 1e-9, 1e-12), "got ", show(predicted.get_pose_variance()), " expected ",
                  show(expected));
        if (constant and sinceSet >= 35)
        {
            // a constant motion ends up predicted exactly
            PBT_CHECK(c, "constant-motion", near(predicted.get_position(), vector3(position + stepT), 0, 1e-4) and
                                                    angle_between(predicted.get_orientation_quaternion(), stepQ * rotation) < 1e-6,
                      "rotation error ", angle_between(predicted.get_orientation_quaternion(), stepQ * rotation));
            c.label("constant motion");
        }
        last = position;
        lastQ = rotation;
    }
    if (predictions >= 2)
        c.nontrivial();
}

PBT_MAIN((pbt::Property {.id = "P10",
                         .rule = "histories of poses (constant motions, small motions, jumps) with resets; non-trivial: at least two "
                                 "predictions from a known last pose",
                         .run = run}))
