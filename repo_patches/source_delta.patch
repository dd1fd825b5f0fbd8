From 57d6baa598c5fb03f489c67dba6c11b34c55d884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:14 +0000
Subject: [PATCH 01/21] fix: give copied and assigned agents an envelope of
 their own

---
 include/DynamicObstacleAvoidance/Agent.hpp |  5 +++++
 src/Agent.cpp                              | 12 +++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/DynamicObstacleAvoidance/Agent.hpp b/include/DynamicObstacleAvoidance/Agent.hpp
index 24cf801..0c0f1e4 100644
--- a/include/DynamicObstacleAvoidance/Agent.hpp
+++ b/include/DynamicObstacleAvoidance/Agent.hpp
@@ -47,6 +47,11 @@ namespace DynamicObstacleAvoidance
 		 */
 		Agent(const Agent& agent);
 
+		/**
+		 * @brief Assignment operator
+		 */
+		Agent& operator=(const Agent& agent);
+
 		/**
 		 * @brief Getter of the envelope
 		 * @return the envelope
diff --git a/src/Agent.cpp b/src/Agent.cpp
index 972099b..f3ca8d7 100644
--- a/src/Agent.cpp
+++ b/src/Agent.cpp
@@ -15,9 +15,19 @@ namespace DynamicObstacleAvoidance
 	}
 
 	Agent::Agent(const Agent& agent):
-	state(agent.state), safety_margin(agent.safety_margin), delta_t(agent.delta_t)
+	state(agent.state), safety_margin(agent.safety_margin),
+	envelope(std::make_shared<Ellipsoid>(static_cast<const Ellipsoid&>(*agent.envelope))), delta_t(agent.delta_t)
 	{}
 
+	Agent& Agent::operator=(const Agent& agent)
+	{
+		this->state = agent.state;
+		this->safety_margin = agent.safety_margin;
+		this->envelope = std::make_shared<Ellipsoid>(static_cast<const Ellipsoid&>(*agent.envelope));
+		this->delta_t = agent.delta_t;
+		return *this;
+	}
+
 	void Agent::update_envelope()
 	{
 		double margin = std::max(0.1, this->safety_margin);
-- 
2.43.0


From 2e67d4636ea4d5572345ed823c2b79dd9910755f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:14 +0000
Subject: [PATCH 02/21] fix: keep the agent envelope in step with construction
 and safety margin

---
 include/DynamicObstacleAvoidance/Agent.hpp | 1 +
 src/Agent.cpp                              | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/include/DynamicObstacleAvoidance/Agent.hpp b/include/DynamicObstacleAvoidance/Agent.hpp
index 0c0f1e4..378c30f 100644
--- a/include/DynamicObstacleAvoidance/Agent.hpp
+++ b/include/DynamicObstacleAvoidance/Agent.hpp
@@ -131,6 +131,7 @@ namespace DynamicObstacleAvoidance
 		inline void set_safety_margin(const double& safety_margin)
 		{ 
 			this->safety_margin = safety_margin;
+			this->update_envelope();
 		}
 
 		/**
diff --git a/src/Agent.cpp b/src/Agent.cpp
index f3ca8d7..e5c17c6 100644
--- a/src/Agent.cpp
+++ b/src/Agent.cpp
@@ -6,12 +6,14 @@ namespace DynamicObstacleAvoidance
 	safety_margin(safety_margin), delta_t(0.5)
 	{
 		this->envelope = std::make_shared<Ellipsoid>("envelope", State(this->get_position()));
+		this->update_envelope();
 	}
 
 	Agent::Agent(const State& state, const double& safety_margin):
 	state(state), safety_margin(safety_margin), delta_t(0.5)
 	{
 		this->envelope = std::make_shared<Ellipsoid>("envelope", State(this->get_position()));
+		this->update_envelope();
 	}
 
 	Agent::Agent(const Agent& agent):
-- 
2.43.0


From 7d60463f6aa23b71b684dffd78e442c87e850067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:14 +0000
Subject: [PATCH 03/21] fix: normalise every quaternion a pose is constructed
 from

---
 src/State/Pose.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/State/Pose.cpp b/src/State/Pose.cpp
index 9226f77..695b125 100644
--- a/src/State/Pose.cpp
+++ b/src/State/Pose.cpp
@@ -11,7 +11,7 @@ namespace DynamicObstacleAvoidance
 	Pose::Pose(const Eigen::Vector3d& position, const Eigen::Quaterniond& orientation):
 	position(position), orientation(orientation)
 	{
-		if(this->orientation.norm() - 1 < 1e-4) this->orientation.normalize();
+		this->orientation.normalize();
 		if(this->orientation.w() < 0.0) this->orientation = Eigen::Quaterniond(-this->orientation.w(), -this->orientation.x(), -this->orientation.y(), -this->orientation.z()); 
 	}
 
@@ -22,7 +22,7 @@ namespace DynamicObstacleAvoidance
 	Pose::Pose(const double& px, const double& py, const double& pz, const double& qw, const double& qx, const double& qy, const double& qz):
 	position(px,py,pz), orientation(qw,qx,qy,qz)
 	{
-		if(orientation.norm() - 1 < 1e-4) this->orientation.normalize();
+		this->orientation.normalize();
 		if(this->orientation.w() < 0.0) this->orientation = Eigen::Quaterniond(-this->orientation.w(), -this->orientation.x(), -this->orientation.y(), -this->orientation.z());
 	}
 
-- 
2.43.0


From 3a2932a8a8cdedcc76829822f939400065ca1c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:14 +0000
Subject: [PATCH 04/21] fix: initialise the reference position of obstacles
 constructed by name

---
 src/Obstacle/Obstacle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Obstacle/Obstacle.cpp b/src/Obstacle/Obstacle.cpp
index 4474d64..d3aed67 100644
--- a/src/Obstacle/Obstacle.cpp
+++ b/src/Obstacle/Obstacle.cpp
@@ -6,11 +6,11 @@
 namespace DynamicObstacleAvoidance
 {
 	Obstacle::Obstacle(const std::string& name, double safety_margin):
-	name(name), state(Eigen::Vector3d::Zero()), safety_margin(Eigen::Array3d(safety_margin, safety_margin, safety_margin))  
+	name(name), state(Eigen::Vector3d::Zero()), reference_position(Eigen::Vector3d::Zero()), safety_margin(Eigen::Array3d(safety_margin, safety_margin, safety_margin))  
 	{}
 
 	Obstacle::Obstacle(const std::string& name, const Eigen::Array3d& safety_margin):
-	name(name), state(Eigen::Vector3d::Zero()), safety_margin(safety_margin)
+	name(name), state(Eigen::Vector3d::Zero()), reference_position(Eigen::Vector3d::Zero()), safety_margin(safety_margin)
 	{}
 
 	Obstacle::Obstacle(const std::string& name, double cx, double cy, double cz, double safety_margin):
-- 
2.43.0


From 3a0b7f971776a7e5e4b8e155f02f404524bee60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:14 +0000
Subject: [PATCH 05/21] fix: smooth the hull with its current samples

---
 src/Obstacle/StarShapeHull.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Obstacle/StarShapeHull.cpp b/src/Obstacle/StarShapeHull.cpp
index 2d01726..b55f591 100644
--- a/src/Obstacle/StarShapeHull.cpp
+++ b/src/Obstacle/StarShapeHull.cpp
@@ -84,6 +84,7 @@ namespace DynamicObstacleAvoidance
 			}
 			surface_point(0) += safety(0);
 			surface_point(0) = std::max(this->min_radius, surface_point(0));
+			this->polar_surface_points.col(i) = surface_point;
 			// smooth function
 			if(i > 1)
 			{
@@ -91,7 +92,6 @@ namespace DynamicObstacleAvoidance
 				                                         0.05 * this->polar_surface_points.col(i-2)(0) + \
 				                                         0.05 * this->polar_surface_points.col(i)(0);
 			}
-			this->polar_surface_points.col(i) = surface_point;
 		}
 		// smooth 0 point with the last one
 		this->polar_surface_points.col(0)(0) = 0.9 * this->polar_surface_points.col(0)(0) + \
-- 
2.43.0


From 0310a3ef59c8950562db072a9ecee9cdf709f1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:14 +0000
Subject: [PATCH 06/21] fix: wrap the closest point index past the last sample

---
 src/Utils/MathTools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Utils/MathTools.cpp b/src/Utils/MathTools.cpp
index 38af9b3..79ed33a 100644
--- a/src/Utils/MathTools.cpp
+++ b/src/Utils/MathTools.cpp
@@ -87,8 +87,8 @@ namespace DynamicObstacleAvoidance
         std::vector<double> vec;
         for (int64_t i = 0; i < A.cols(); ++i) vec.push_back(A.col(i)(index));
         std::vector<double>::iterator it = std::lower_bound(std::begin(vec), std::end(vec), p(index));
-        unsigned int first_index = it - vec.begin();
-        unsigned int next_index = ((it + 1) - vec.begin()) % vec.size();
+        unsigned int first_index = (it - vec.begin()) % vec.size();
+        unsigned int next_index = (first_index + 1) % vec.size();
         return std::make_pair(first_index, next_index);
     }
 }
-- 
2.43.0


From 3a857a138710265e55bc0bb5b5fc244e34aeca84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:14 +0000
Subject: [PATCH 07/21] fix: make the dynamical system frame orthonormal for
 every velocity

---
 src/Modulation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Modulation.cpp b/src/Modulation.cpp
index 7fbc903..7272198 100644
--- a/src/Modulation.cpp
+++ b/src/Modulation.cpp
@@ -112,9 +112,10 @@ namespace DynamicObstacleAvoidance
 			Eigen::Vector3d cross_product = agent_relative_velocity.cross(unit_vector);
 			if(cross_product.norm() < 1E-4) 
 			{
-				cross_product = Eigen::Vector3d::UnitY();
+				unit_vector = Eigen::Vector3d::UnitY();
 				cross_product = agent_relative_velocity.cross(unit_vector);
 			}
+			cross_product.normalize();
 			Eigen::Matrix3d orthogonal_matrix;
 			orthogonal_matrix << agent_relative_velocity, cross_product, cross_product.cross(agent_relative_velocity);
 			return orthogonal_matrix;
-- 
2.43.0


From 24df98b0c1b3b76da6c6dde35c1998038531f126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:14 +0000
Subject: [PATCH 08/21] fix: use unit normals and surface tangents in the
 modulation basis

---
 src/Modulation.cpp             | 4 ++--
 src/Obstacle/StarShapeHull.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Modulation.cpp b/src/Modulation.cpp
index 7272198..7b6374c 100644
--- a/src/Modulation.cpp
+++ b/src/Modulation.cpp
@@ -69,6 +69,7 @@ namespace DynamicObstacleAvoidance
 				unit_vector = Eigen::Vector3d::UnitY();
 				tangent_vector = normal_vector.cross(unit_vector);
 			}
+			tangent_vector.normalize();
 
 			Eigen::Vector3d cross_product = tangent_vector.cross(normal_vector);
 			Eigen::Matrix3d orthogonal_basis;
@@ -82,9 +83,8 @@ namespace DynamicObstacleAvoidance
 				std::cerr << "Problem here" << std::endl;
 			}
 			
-			Eigen::Vector3d ref_cross_product = tangent_vector.cross(reference_direction);
 			Eigen::Matrix3d reference_basis;
-			reference_basis << reference_direction, tangent_vector, ref_cross_product;
+			reference_basis << reference_direction, tangent_vector, cross_product;
 			return std::make_pair(reference_basis, orthogonal_basis);
 		}
 
diff --git a/src/Obstacle/StarShapeHull.cpp b/src/Obstacle/StarShapeHull.cpp
index b55f591..f410f18 100644
--- a/src/Obstacle/StarShapeHull.cpp
+++ b/src/Obstacle/StarShapeHull.cpp
@@ -115,7 +115,7 @@ namespace DynamicObstacleAvoidance
 		Eigen::Vector3d surface_point1 = this->cartesian_surface_points.col(idx.first);
 		Eigen::Vector3d surface_point2 = this->cartesian_surface_points.col(idx.second);
 
-		return (surface_point1-surface_point2).cross(Eigen::Vector3d::UnitZ());
+		return (surface_point1-surface_point2).cross(Eigen::Vector3d::UnitZ()).normalized();
 	}
 
 	double StarShapeHull::compute_distance_to_point(const Eigen::Vector3d& point, const Eigen::Array3d&) const
-- 
2.43.0


From 2d97eb1814053dbf935c0787b0ef21eabb14b0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:14 +0000
Subject: [PATCH 09/21] fix: sample both outlines when testing ellipsoids for
 overlap

---
 src/Obstacle/Ellipsoid.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Obstacle/Ellipsoid.cpp b/src/Obstacle/Ellipsoid.cpp
index 8e601a2..878d85d 100644
--- a/src/Obstacle/Ellipsoid.cpp
+++ b/src/Obstacle/Ellipsoid.cpp
@@ -211,11 +211,12 @@ namespace DynamicObstacleAvoidance
 			// first sample the first ellipsoid
 			unsigned int nb_samples = 100;
 			Eigen::MatrixXd samples = other_obstacle.sample_from_parameterization(nb_samples, true);
+			Eigen::MatrixXd own_samples = this->sample_from_parameterization(nb_samples, true);
 			// for each points check if at least one of them is inside
 			unsigned int i = 0;
 			while(!intersecting && i<samples.cols())
 			{
-				intersecting = this->point_is_inside(samples.col(i));
+				intersecting = this->point_is_inside(samples.col(i)) || other_obstacle.point_is_inside(own_samples.col(i));
 				++i;
 			}
 		}
-- 
2.43.0


From 35279cd167db3dd40fa55d9bb44ad846f08acae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:14 +0000
Subject: [PATCH 10/21] fix: let an aggregate test its members for overlap

---
 include/DynamicObstacleAvoidance/Obstacle/Aggregate.hpp | 7 +++++++
 src/Obstacle/Aggregate.cpp                              | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/include/DynamicObstacleAvoidance/Obstacle/Aggregate.hpp b/include/DynamicObstacleAvoidance/Obstacle/Aggregate.hpp
index f82a4a7..2c9dc79 100644
--- a/include/DynamicObstacleAvoidance/Obstacle/Aggregate.hpp
+++ b/include/DynamicObstacleAvoidance/Obstacle/Aggregate.hpp
@@ -30,6 +30,13 @@ namespace DynamicObstacleAvoidance
 		 */
 		void update_center_position();
 
+		/**
+		 * @brief Indicate if the aggregate is intersecting with the provided ellipsoid
+		 * @param other_obstacle the ellipsoid to check
+		 * @return true if one of the primitives intersects
+		 */
+		bool is_intersecting_ellipsoid(const Ellipsoid& other_obstacle) const override;
+
 	public:
 		/**
 		 * @brief Empty constructor
diff --git a/src/Obstacle/Aggregate.cpp b/src/Obstacle/Aggregate.cpp
index 0b235ac..f43e1ad 100644
--- a/src/Obstacle/Aggregate.cpp
+++ b/src/Obstacle/Aggregate.cpp
@@ -65,6 +65,13 @@ namespace DynamicObstacleAvoidance
 		if(update_hull) this->update_hull();
 	}
 
+	bool Aggregate::is_intersecting_ellipsoid(const Ellipsoid& other_obstacle) const
+	{
+		bool intersecting = false;
+		for(auto& p:this->primitives) intersecting = (intersecting || p->is_intersecting(other_obstacle));
+		return intersecting;
+	}
+
 	Eigen::Vector3d Aggregate::compute_normal_to_agent(const Agent& agent) const
 	{
 		if(this->point_is_inside(agent.get_position()))
-- 
2.43.0


From e61046998263beeecec0afd759db1ab3348f9432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:14 +0000
Subject: [PATCH 11/21] fix: intersect lines of every direction with an
 ellipsoid

---
 src/Obstacle/Ellipsoid.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/Obstacle/Ellipsoid.cpp b/src/Obstacle/Ellipsoid.cpp
index 878d85d..dbe4164 100644
--- a/src/Obstacle/Ellipsoid.cpp
+++ b/src/Obstacle/Ellipsoid.cpp
@@ -262,26 +262,26 @@ namespace DynamicObstacleAvoidance
 		Eigen::Vector3d rx1 = this->get_pose().inverse() * x1;
 		Eigen::Vector3d rx2 = this->get_pose().inverse() * x2;
 		// calculate the line passing by the two points
-		double a = (rx2(1) - rx1(1)) / (rx2(0) - rx1(0));
-		double b = rx1(1) - a * rx1(0);
+		double dx = rx2(0) - rx1(0);
+		double dy = rx2(1) - rx1(1);
 		// compute the intersection between the ellipsoid and the desired velocity line
 		Eigen::Array3d lengths = this->get_axis_lengths() + this->get_safety_margin();
 		double r1squared = lengths(0) * lengths(0);
 		double r2squared = lengths(1) * lengths(1);
-		double A = 1 / r1squared + (a*a) / r2squared;
-		double B = (2*a*b) / r2squared;
-		double C = (b*b) / r2squared - 1;
+		double A = (dx*dx) / r1squared + (dy*dy) / r2squared;
+		double B = 2 * ((rx1(0)*dx) / r1squared + (rx1(1)*dy) / r2squared);
+		double C = (rx1(0)*rx1(0)) / r1squared + (rx1(1)*rx1(1)) / r2squared - 1;
 		double delta = B*B - 4*A*C;
 		// solution
 		Eigen::Vector3d p1 = Eigen::Vector3d::Zero();
 		Eigen::Vector3d p2 = Eigen::Vector3d::Zero();
 		bool intersect = false;
-		if(delta >= 0)
+		if(A > 0 && delta >= 0)
 		{
-			double px1 = (-B - sqrt(delta)) / (2*A);
-			p1 << px1, a * px1 + b, 0;
-			double px2 = (-B + sqrt(delta)) / (2*A);
-			p2 << px2, a * px2 + b, 0;
+			double t1 = (-B - sqrt(delta)) / (2*A);
+			p1 << rx1(0) + t1 * dx, rx1(1) + t1 * dy, 0;
+			double t2 = (-B + sqrt(delta)) / (2*A);
+			p2 << rx1(0) + t2 * dx, rx1(1) + t2 * dy, 0;
 			p1 = this->get_pose() * p1;
 			p2 = this->get_pose() * p2;
 			intersect = true;
-- 
2.43.0


From eec6e59e665c4a8847e7f9d231f39e8b217a8cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:14 +0000
Subject: [PATCH 12/21] fix: compute the ellipsoid area from products of axis
 lengths

---
 src/Obstacle/Ellipsoid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Obstacle/Ellipsoid.cpp b/src/Obstacle/Ellipsoid.cpp
index dbe4164..4f2303c 100644
--- a/src/Obstacle/Ellipsoid.cpp
+++ b/src/Obstacle/Ellipsoid.cpp
@@ -248,7 +248,7 @@ namespace DynamicObstacleAvoidance
 	double Ellipsoid::area(bool is_include_safety_margin) const
 	{
 		Eigen::Array3d lengths = (is_include_safety_margin) ? this->get_axis_lengths() + this->get_safety_margin() : this->get_axis_lengths();
-		return 4 * M_PI * (pow((pow(lengths(0), 1.6) + pow(lengths(1), 1.6) + pow(lengths(2), 1.6))/3, 1/1.6));
+		return 4 * M_PI * (pow((pow(lengths(0) * lengths(1), 1.6) + pow(lengths(0) * lengths(2), 1.6) + pow(lengths(1) * lengths(2), 1.6))/3, 1/1.6));
 	}
 
 	Eigen::Vector3d Ellipsoid::compute_repulsion_vector(const Agent& agent) const
-- 
2.43.0


From fb877d8e11a571d6d6426788d192b510ffcd516b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:14 +0000
Subject: [PATCH 13/21] fix: throw a standard exception object from linspace

---
 src/Utils/MathTools.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Utils/MathTools.cpp b/src/Utils/MathTools.cpp
index 79ed33a..697aaee 100644
--- a/src/Utils/MathTools.cpp
+++ b/src/Utils/MathTools.cpp
@@ -1,11 +1,12 @@
 #include "DynamicObstacleAvoidance/Utils/MathTools.hpp"
+#include <stdexcept>
 
 namespace DynamicObstacleAvoidance
 {
     std::vector<double> MathTools::linspace(double start, double end, int num) {
         // catch rarely, throw often
         if (num < 2) {
-            throw new std::exception();
+            throw std::invalid_argument("linspace requires at least two values");
         }
         int partitions = num - 1;
         std::vector<double> pts;
-- 
2.43.0


From 579dd8ceaa6c9176c2a5c4b9b7fbcc3a280272c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:14 +0000
Subject: [PATCH 14/21] fix: draw the safety outline of an ellipsoid from its
 margin

---
 src/Obstacle/Ellipsoid.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Obstacle/Ellipsoid.cpp b/src/Obstacle/Ellipsoid.cpp
index 4f2303c..a1cc1c1 100644
--- a/src/Obstacle/Ellipsoid.cpp
+++ b/src/Obstacle/Ellipsoid.cpp
@@ -131,9 +131,9 @@ namespace DynamicObstacleAvoidance
 				xrow.at(j) = point(0);
 				yrow.at(j) = point(1);
 				zrow.at(j) = point(2);
-				xrow_safety.at(j) = point(0);
-				yrow_safety.at(j) = point(1);
-				zrow_safety.at(j) = point(2);
+				xrow_safety.at(j) = safety_point(0);
+				yrow_safety.at(j) = safety_point(1);
+				zrow_safety.at(j) = safety_point(2);
 			}
 			x.at(i) = xrow;
 			y.at(i) = yrow;
-- 
2.43.0


From 99abc8a5a89dffcf5cc6b3827d530f89ea0bb36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:14 +0000
Subject: [PATCH 15/21] fix: draw the side view of an ellipsoid through its x
 axis

---
 src/Obstacle/Ellipsoid.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/Obstacle/Ellipsoid.cpp b/src/Obstacle/Ellipsoid.cpp
index a1cc1c1..5c1128f 100644
--- a/src/Obstacle/Ellipsoid.cpp
+++ b/src/Obstacle/Ellipsoid.cpp
@@ -166,10 +166,13 @@ namespace DynamicObstacleAvoidance
 			std::vector<double> tmp_z_safety(n1);
 			for (unsigned int i=0; i<n1; ++i)
 			{
-				tmp_x.at(i) = x[i][0];
-				tmp_x_safety.at(i) = x_safety[i][0];
-				tmp_z.at(i) = z[i][0];
-				tmp_z_safety.at(i) = z_safety[i][0];
+				double theta = alpha.at(i);
+				Eigen::Vector3d point = this->get_pose() * Eigen::Vector3d(this->get_axis_lengths(0) * sin(theta), 0, this->get_axis_lengths(2) * cos(theta));
+				Eigen::Vector3d safety_point = this->get_pose() * Eigen::Vector3d(safety_length(0) * sin(theta), 0, safety_length(2) * cos(theta));
+				tmp_x.at(i) = point(0);
+				tmp_x_safety.at(i) = safety_point(0);
+				tmp_z.at(i) = point(2);
+				tmp_z_safety.at(i) = safety_point(2);
 			}
 			plt::plot(tmp_x, tmp_z, color + "-");
 			plt::plot(tmp_x_safety, tmp_z_safety, color + "--");
-- 
2.43.0


From 40d9000330ad028cf21cfca3bc499d663bae264b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:14 +0000
Subject: [PATCH 16/21] fix: plot the agent in side view coordinates in the
 side view panel

---
 src/Utils/Plotting/PlottingTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utils/Plotting/PlottingTools.cpp b/src/Utils/Plotting/PlottingTools.cpp
index 7d97514..b7e4069 100644
--- a/src/Utils/Plotting/PlottingTools.cpp
+++ b/src/Utils/Plotting/PlottingTools.cpp
@@ -64,7 +64,7 @@ namespace DynamicObstacleAvoidance
 
 			plt::subplot(2, 1, 2);
 			plot_obstacles(obstacles, "xz");
-			plot_agent(agent, "xy");
+			plot_agent(agent, "xz");
 			plot_agent_trajectory(goal, position_history, "xz");
 			plt::xlim(-10, 10);
 			plt::ylim(-10, 10);
-- 
2.43.0


From f603dd4d29a96eded720fcb3349e53c5e36652ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:14 +0000
Subject: [PATCH 17/21] fix: look up only aggregates in the published list of
 an environment

---
 src/Environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Environment.cpp b/src/Environment.cpp
index 639f92b..47667da 100644
--- a/src/Environment.cpp
+++ b/src/Environment.cpp
@@ -60,7 +60,7 @@ namespace DynamicObstacleAvoidance
 			{
 				for(auto& o:this->obstacle_list)
 				{
-					if(o->get_name() == k) return o;
+					if(o->get_type() == "Aggregate" && o->get_name() == k) return o;
 				}
 			}
 			throw Exceptions::ObstacleNotInEnvironmentException(k);
-- 
2.43.0


From cf7ffae9bf7c7ee143e260dcebc7e9a1d18eb962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:14 +0000
Subject: [PATCH 18/21] fix: report the gradient direction as normal for curved
 ellipsoids

---
 src/Obstacle/Ellipsoid.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Obstacle/Ellipsoid.cpp b/src/Obstacle/Ellipsoid.cpp
index 5c1128f..ed3e44f 100644
--- a/src/Obstacle/Ellipsoid.cpp
+++ b/src/Obstacle/Ellipsoid.cpp
@@ -65,12 +65,14 @@ namespace DynamicObstacleAvoidance
 	{
 		Eigen::Array3d point_in_frame = this->get_pose().inverse() * agent.get_position();
 		Eigen::Array3d lengths = this->axis_lengths + this->get_safety_margin() + agent.get_safety_margin();
-		Eigen::Array3d tmp_values = (2 * this->curvature_factor * point_in_frame);
+		Eigen::Array3d tmp_values = point_in_frame;
+		Eigen::Array3d scales = 2 * this->curvature_factor;
 		for(int i=0; i<3; ++i)
 		{
-			tmp_values(i) = (lengths(i) > this->epsilon) ? tmp_values(i) / (lengths(i) * lengths(i)) : tmp_values(i);
+			tmp_values(i) = (lengths(i) > this->epsilon) ? tmp_values(i) / lengths(i) : tmp_values(i);
+			scales(i) = (lengths(i) > this->epsilon) ? scales(i) / lengths(i) : scales(i);
 		}
-		Eigen::Vector3d normal_vector = tmp_values.pow(2 * this->curvature_factor - 1);
+		Eigen::Vector3d normal_vector = scales * tmp_values.pow(2 * this->curvature_factor - 1);
 		normal_vector.normalize();
 		return normal_vector;
 	}
-- 
2.43.0


From 6d88b01ef497e8ed6be3234c08524ca2af9a49d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:14 +0000
Subject: [PATCH 19/21] fix: convert the origin to polar coordinates

---
 src/Utils/MathTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utils/MathTools.cpp b/src/Utils/MathTools.cpp
index 697aaee..c4bcd2c 100644
--- a/src/Utils/MathTools.cpp
+++ b/src/Utils/MathTools.cpp
@@ -51,7 +51,7 @@ namespace DynamicObstacleAvoidance
     Eigen::Vector3d MathTools::cartesian_to_polar(const Eigen::Vector3d& cartesian_point)
     {
         double radius = sqrt(cartesian_point(0) * cartesian_point(0) + cartesian_point(1) * cartesian_point(1) + cartesian_point(2) * cartesian_point(2));
-        double theta = acos(cartesian_point(2) / radius);
+        double theta = (radius > 0) ? acos(cartesian_point(2) / radius) : 0;
         double phi = atan2(cartesian_point(1), cartesian_point(0));
         return Eigen::Vector3d(radius, theta, phi);
     }
-- 
2.43.0


From 3154f5c07e1ce0aa4fef6270253990891403ae07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:04 +0000
Subject: [PATCH 20/21] fix: sample the hull at even steps all around

---
 src/Obstacle/StarShapeHull.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Obstacle/StarShapeHull.cpp b/src/Obstacle/StarShapeHull.cpp
index f410f18..f591b1e 100644
--- a/src/Obstacle/StarShapeHull.cpp
+++ b/src/Obstacle/StarShapeHull.cpp
@@ -42,8 +42,8 @@ namespace DynamicObstacleAvoidance
 		this->set_reference_position(reference_point);
 		this->set_position(reference_point);
 
-		// this -1e-4 trick is to avoid that idx 0 and end represent both the same point
-		std::vector<double> phi = MathTools::linspace(-M_PI, M_PI-1e-4, this->resolution);
+		// stop one step before pi: idx 0 and end should be neighbours and not represent both the same point
+		std::vector<double> phi = MathTools::linspace(-M_PI, M_PI - 2*M_PI/this->resolution, this->resolution);
 		
 		for(unsigned int i = 0; i < this->resolution; ++i)
 		{
-- 
2.43.0


From cff17611f88d6d3d3ddb9cc2558fcfd2c8a1c790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:30 +0000
Subject: [PATCH 21/21] fix: draw aggregates and hulls in the coordinates of
 the requested plane

---
 src/Obstacle/Aggregate.cpp     |  2 +-
 src/Obstacle/StarShapeHull.cpp | 12 +++++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/Obstacle/Aggregate.cpp b/src/Obstacle/Aggregate.cpp
index f43e1ad..a0de47b 100644
--- a/src/Obstacle/Aggregate.cpp
+++ b/src/Obstacle/Aggregate.cpp
@@ -102,7 +102,7 @@ namespace DynamicObstacleAvoidance
 		{
 			o->draw(color, axis);
 		}
-		plt::plot({this->get_reference_position()(0)}, {this->get_reference_position()(1)}, "bx");
+		plt::plot({this->get_reference_position()(0)}, {this->get_reference_position()((axis == "xz") ? 2 : 1)}, "bx");
 		this->outside_hull.draw("k", axis);
 		this->inside_hull.draw("k", axis);
 	}
diff --git a/src/Obstacle/StarShapeHull.cpp b/src/Obstacle/StarShapeHull.cpp
index f591b1e..faeadeb 100644
--- a/src/Obstacle/StarShapeHull.cpp
+++ b/src/Obstacle/StarShapeHull.cpp
@@ -132,8 +132,10 @@ namespace DynamicObstacleAvoidance
 		return distance;
 	}
 
-	void StarShapeHull::draw(const std::string& color, const std::string&) const
+	void StarShapeHull::draw(const std::string& color, const std::string& axis) const
 	{
+		// coordinate drawn vertically
+		const unsigned int vertical = (axis == "xz") ? 2 : 1;
 		std::vector<double> x;
 		std::vector<double> y;
 
@@ -142,20 +144,20 @@ namespace DynamicObstacleAvoidance
 		for (unsigned int i=0; i<this->resolution; ++i)
 		{		
 			x.push_back(this->cartesian_surface_points.col(i)(0));
-			y.push_back(this->cartesian_surface_points.col(i)(1));
+			y.push_back(this->cartesian_surface_points.col(i)(vertical));
 		}
 
 		plt::plot(x, y, color + "--");
 
 		if(this->get_name() == "")
 		{
-			plt::plot({this->get_position()(0)}, {this->get_position()(1)}, color + "o");
+			plt::plot({this->get_position()(0)}, {this->get_position()(vertical)}, color + "o");
 		}
 		else
 		{
-			plt::text(this->get_position()(0), this->get_position()(1), this->get_name());
+			plt::text(this->get_position()(0), this->get_position()(vertical), this->get_name());
 		}
-		plt::plot({this->get_reference_position()(0)}, {this->get_reference_position()(1)}, color + "x");
+		plt::plot({this->get_reference_position()(0)}, {this->get_reference_position()(vertical)}, color + "x");
 	}
 
 	bool StarShapeHull::point_is_inside(const Eigen::Vector3d& point) const
-- 
2.43.0

