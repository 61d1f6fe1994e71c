From ae97ae42562d1724a9683b844c445fa4d8348273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:29 +0000
Subject: [PATCH 01/15] fix: wrong sign in the (0,2) entry of the
 yaw-pitch-roll rotation matrix

---
 src/genYAML/src/urdf2dh_inertial.cpp                 | 2 +-
 src/thunder/src/FrameOffset.cpp                      | 4 ++--
 src/thunder/src/utils.cpp                            | 2 +-
 src/thunder/thunder_robot_template/thunder_robot.cpp | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/genYAML/src/urdf2dh_inertial.cpp b/src/genYAML/src/urdf2dh_inertial.cpp
index 7cbbf2d..bc836fe 100644
--- a/src/genYAML/src/urdf2dh_inertial.cpp
+++ b/src/genYAML/src/urdf2dh_inertial.cpp
@@ -94,7 +94,7 @@ namespace thunder_ns{
         //template R yaw-pitch-roll
         rotTr(0,0)=cy*cp;
         rotTr(0,1)=cy*sp*sr-sy*cr;
-        rotTr(0,2)=cy*sp*cr-sy*sr;
+        rotTr(0,2)=cy*sp*cr+sy*sr;
         rotTr(1,0)=sy*cp;
         rotTr(1,1)=sy*sp*sr+cy*cr;
         rotTr(1,2)=sy*sp*cr-cy*sr;
diff --git a/src/thunder/src/FrameOffset.cpp b/src/thunder/src/FrameOffset.cpp
index 9ade626..7860700 100644
--- a/src/thunder/src/FrameOffset.cpp
+++ b/src/thunder/src/FrameOffset.cpp
@@ -55,7 +55,7 @@ namespace thunder_ns{
 		//template rotation yaw-pitch-roll
 		R(0,0)=cy*cp;
 		R(0,1)=cy*sp*sr-sy*cr;
-		R(0,2)=cy*sp*cr-sy*sr;
+		R(0,2)=cy*sp*cr+sy*sr;
 		R(1,0)=sy*cp;
 		R(1,1)=sy*sp*sr+cy*cr;
 		R(1,2)=sy*sp*cr-cy*sr;
@@ -94,7 +94,7 @@ namespace thunder_ns{
 		//template R yaw-pitch-roll
 		rotTr(0,0)=cy*cp;
 		rotTr(0,1)=cy*sp*sr-sy*cr;
-		rotTr(0,2)=cy*sp*cr-sy*sr;
+		rotTr(0,2)=cy*sp*cr+sy*sr;
 		rotTr(1,0)=sy*cp;
 		rotTr(1,1)=sy*sp*sr+cy*cr;
 		rotTr(1,2)=sy*sp*cr-cy*sr;
diff --git a/src/thunder/src/utils.cpp b/src/thunder/src/utils.cpp
index 315ec68..09c3c8a 100755
--- a/src/thunder/src/utils.cpp
+++ b/src/thunder/src/utils.cpp
@@ -77,7 +77,7 @@ namespace thunder_ns{
 		//template R yaw-pitch-roll
 		rotTr(0,0)=cy*cp;
 		rotTr(0,1)=cy*sp*sr-sy*cr;
-		rotTr(0,2)=cy*sp*cr-sy*sr;
+		rotTr(0,2)=cy*sp*cr+sy*sr;
 		rotTr(1,0)=sy*cp;
 		rotTr(1,1)=sy*sp*sr+cy*cr;
 		rotTr(1,2)=sy*sp*cr-cy*sr;
diff --git a/src/thunder/thunder_robot_template/thunder_robot.cpp b/src/thunder/thunder_robot_template/thunder_robot.cpp
index 0b06891..458e120 100755
--- a/src/thunder/thunder_robot_template/thunder_robot.cpp
+++ b/src/thunder/thunder_robot_template/thunder_robot.cpp
@@ -800,7 +800,7 @@ Eigen::Matrix3d thunder_robot::rpyRot(const std::vector<double> rpy){
 	//template R yaw-pitch-roll
 	rotTr(0,0)=cy*cp;
 	rotTr(0,1)=cy*sp*sr-sy*cr;
-	rotTr(0,2)=cy*sp*cr-sy*sr;
+	rotTr(0,2)=cy*sp*cr+sy*sr;
 	rotTr(1,0)=sy*cp;
 	rotTr(1,1)=sy*sp*sr+cy*cr;
 	rotTr(1,2)=sy*sp*cr-cy*sr;
-- 
2.43.0


From f4f7fdb4cfb45cc2f82fc3f03a00539567ed5e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:29 +0000
Subject: [PATCH 02/15] fix: elastic couplings use the position and velocity of
 their own joint

---
 src/thunder/src/dynamics.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/thunder/src/dynamics.cpp b/src/thunder/src/dynamics.cpp
index d07014d..1863cfc 100644
--- a/src/thunder/src/dynamics.cpp
+++ b/src/thunder/src/dynamics.cpp
@@ -311,17 +311,23 @@ namespace thunder_ns{
 			// casadi::SX D(numElasticJoints,numElasticJoints);
 			// casadi::SX Dm(numElasticJoints,numElasticJoints);
 			casadi::SX Mm(numElasticJoints,numElasticJoints);
+			// index of the joint of each elastic coupling
+			std::vector<int> el_joint;
+			for (int j=0; j<(int)isElasticJoint.size(); j++){
+				if (isElasticJoint[j]) el_joint.push_back(j);
+			}
 			for (int i=0; i<numElasticJoints; i++){
+				int j = el_joint[i];
 				for (int ord=0; ord<K_order; ord++){
-					k(i) += pow(x(i)-q(i), 2*ord+1) * par_K(i*K_order+ord);	// ^1,3,5...
+					k(i) += pow(x(i)-q(j), 2*ord+1) * par_K(i*K_order+ord);	// ^1,3,5...
 					K_vec[ord].resize(numElasticJoints,numElasticJoints);
 					K_vec[ord](i,i) = par_K(i*K_order + ord);
 				}
 				for (int ord=0; ord<D_order; ord++){
 					if (ord%2 == 0){
-						d(i) += pow(dx(i)-dq(i), ord+1) * par_D(i*D_order+ord);
+						d(i) += pow(dx(i)-dq(j), ord+1) * par_D(i*D_order+ord);
 					} else {
-						d(i) += sqrt(pow(dx(i)-dq(i), 2)) * pow(dx(i)-dq(i), ord) * par_D(i*D_order+ord);
+						d(i) += sqrt(pow(dx(i)-dq(j), 2)) * pow(dx(i)-dq(j), ord) * par_D(i*D_order+ord);
 					}
 					D_vec[ord].resize(numElasticJoints,numElasticJoints);
 					D_vec[ord](i,i) = par_D(i*D_order + ord);
-- 
2.43.0


From aa1b8e79c75b30f863a1948a237fc1ba68875ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 03/15] fix: Robot::set_par_DYN and set_par_REG update the
 other parameter set

---
 src/thunder/src/robot.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index 3a902f2..f3e6963 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -512,13 +512,13 @@ namespace thunder_ns{
 			for (int i=0; i<numPar; i++){
 				par_DYN(i) = value(i);
 			}
+			// change par_REG
+			update_inertial_REG();
 			return 1;
 		} else {
 			std::cout<<"in setArguments: invalid dimensions of arguments\n";
 			return 0;
 		}
-		// change par_REG
-		update_inertial_REG();
 	}
 
 	int Robot::set_par_REG(Eigen::VectorXd value){
@@ -528,12 +528,13 @@ namespace thunder_ns{
 			for (int i=0; i<numPar; i++){
 				par_REG(i) = value(i);
 			}
+			// change par_DYN
+			update_inertial_DYN();
 			return 1;
 		} else {
 			std::cout<<"in setArguments: invalid dimensions of arguments\n";
 			return 0;
 		}
-		update_inertial_DYN();
 	}
 
 
@@ -935,7 +936,14 @@ namespace thunder_ns{
 			// }
 			param_DYN.segment(STD_PAR_LINK*i, STD_PAR_LINK) << mass, CoM, I-I_tmp_v;
 		}
-		set_par_DYN(param_DYN);
+		// write the argument directly: set_par_DYN would convert back to par_REG
+		const std::vector<int>& flags = symb["par_DYN"];
+		bool only_symb = (args["par_DYN"].numel() != param_DYN.size()); // computed robots hold the symbolic entries only
+		std::vector<double> values;
+		for (int i=0; i<param_DYN.size(); i++){
+			if (!only_symb || flags[i]) values.push_back(param_DYN(i));
+		}
+		args["par_DYN"] = casadi::SX(casadi::DM(values));
 		return 1;
 	}
 
@@ -968,7 +976,8 @@ namespace thunder_ns{
 			// }
 			param_REG.segment(STD_PAR_LINK*i, STD_PAR_LINK) << mass, m_CoM, I+I_tmp_v;
 		}
-		set_par_REG(param_REG);
+		// write the argument directly: set_par_REG would convert back to par_DYN
+		args["par_REG"] = casadi::SX(casadi::DM(std::vector<double>(param_REG.data(), param_REG.data() + param_REG.size())));
 		return 1;
 	}
 
-- 
2.43.0


From d3fcf67c8f8ccffd8e6d35c187342a26f45afd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 04/15] fix: Robot::get_par_DYN and get_par_REG returned
 uninitialised entries when not all parameters are symbolic

---
 src/thunder/src/robot.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index f3e6963..c4745ce 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -549,7 +549,7 @@ namespace thunder_ns{
 
 	Eigen::VectorXd Robot::get_par_DYN(){
 		const casadi::SX& par_DYN_casadi = args["par_DYN"];
-		int numPar = STD_PAR_LINK*numJoints;
+		int numPar = par_DYN_casadi.size1() * par_DYN_casadi.size2();
 		Eigen::VectorXd param_DYN(numPar);
 		std::vector<casadi::SXElem> res_elements = par_DYN_casadi.get_elements();
 		std::transform(res_elements.begin(), res_elements.end(), param_DYN.data(), mapFunction);
@@ -558,7 +558,7 @@ namespace thunder_ns{
 
 	Eigen::VectorXd Robot::get_par_REG(){
 		const casadi::SX& par_REG_casadi = args["par_REG"];
-		int numPar = STD_PAR_LINK*numJoints;
+		int numPar = par_REG_casadi.size1() * par_REG_casadi.size2();
 		Eigen::VectorXd param_REG(numPar);
 		std::vector<casadi::SXElem> res_elements = par_REG_casadi.get_elements();
 		std::transform(res_elements.begin(), res_elements.end(), param_REG.data(), mapFunction);
-- 
2.43.0


From 426a9129456d8da103e9da33648cb645be1b22a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 05/15] fix: links without friction entry get zero friction
 instead of shifting the parameters of the other links

---
 src/thunder/src/robot.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index c4745ce..b1673c1 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -137,7 +137,7 @@ namespace thunder_ns{
 				for (const auto& node : dynamics) {
 					YAML::Node friction = node.second["friction"];
 					std::vector<int> fric_symb;
-					if (friction["symb"]) {
+					if (friction && friction["symb"]) {
 						fric_symb = friction["symb"].as<std::vector<int>>();
 					} else {
 						fric_symb.assign(this->Dl_order, 0);
@@ -637,12 +637,12 @@ namespace thunder_ns{
 
 	int Robot::load_conf_par(std::string file, bool update_REG){
 		// Eigen::VectorXd param_DYN;
-		casadi::SX param_DYN(STD_PAR_LINK*numJoints,1);
-		casadi::SX param_Dl(Dl_order*numJoints,1);
-		casadi::SX param_K(numElasticJoints*K_order,1);
-		casadi::SX param_D(numElasticJoints*D_order,1);
-		casadi::SX param_Dm(numElasticJoints*Dm_order,1);
-		casadi::SX param_Mm(numElasticJoints,1);
+		casadi::SX param_DYN = casadi::SX::zeros(STD_PAR_LINK*numJoints,1);
+		casadi::SX param_Dl = casadi::SX::zeros(Dl_order*numJoints,1);
+		casadi::SX param_K = casadi::SX::zeros(numElasticJoints*K_order,1);
+		casadi::SX param_D = casadi::SX::zeros(numElasticJoints*D_order,1);
+		casadi::SX param_Dm = casadi::SX::zeros(numElasticJoints*Dm_order,1);
+		casadi::SX param_Mm = casadi::SX::zeros(numElasticJoints,1);
 		// ----- parsing yaml inertial ----- //
 		try {
 			// load yaml
@@ -725,8 +725,8 @@ namespace thunder_ns{
 
 	casadi::SX Robot::load_par_REG(std::string file, bool update_DYN){
 		// Eigen::VectorXd param_REG;
-		casadi::SX param_REG(STD_PAR_LINK*numJoints,1);
-		casadi::SX param_Dl(Dl_order*numJoints,1);
+		casadi::SX param_REG = casadi::SX::zeros(STD_PAR_LINK*numJoints,1);
+		casadi::SX param_Dl = casadi::SX::zeros(Dl_order*numJoints,1);
 		// casadi::SX::zeros(numJoints,1)
 		// ----- parsing yaml inertial ----- //
 		try {
-- 
2.43.0


From 21a239f3f0d48980bb33766d578eae953657fff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 06/15] fix: configurations with more links than joints or long
 symb lists overran the selectivity vectors

---
 src/thunder/src/robot.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index b1673c1..dec8a5e 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -118,10 +118,12 @@ namespace thunder_ns{
 			YAML::Node dynamics = config_file["dynamics"];
 			int link_index = 0;
 			for (const auto& node : dynamics) {
+				if (link_index==nj) break; // ignore links beyond the declared joints
 				YAML::Node inertial = node.second["inertial"];
 				std::vector<int> link_symb;
 				if (inertial["symb"]) {
 					link_symb = inertial["symb"].as<std::vector<int>>();
+					link_symb.resize(STD_PAR_LINK);
 				} else {
 					link_symb.assign(STD_PAR_LINK, 0); // Default to non-symbolic
 				}
@@ -135,10 +137,12 @@ namespace thunder_ns{
 				par_Dl_symb.resize(this->Dl_order * nj);
 				link_index = 0;
 				for (const auto& node : dynamics) {
+					if (link_index==nj) break; // ignore links beyond the declared joints
 					YAML::Node friction = node.second["friction"];
 					std::vector<int> fric_symb;
 					if (friction && friction["symb"]) {
 						fric_symb = friction["symb"].as<std::vector<int>>();
+						fric_symb.resize(this->Dl_order); // ignore orders beyond Dl_order
 					} else {
 						fric_symb.assign(this->Dl_order, 0);
 					}
-- 
2.43.0


From 7cf753963318299f7db15ab5972805d29fbbd32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:04 +0000
Subject: [PATCH 07/15] fix: Robot::load_par_REG reads the files written by
 save_par_REG and thunder gen

---
 src/thunder/src/robot.cpp | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index dec8a5e..b5e9158 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -731,34 +731,38 @@ namespace thunder_ns{
 		// Eigen::VectorXd param_REG;
 		casadi::SX param_REG = casadi::SX::zeros(STD_PAR_LINK*numJoints,1);
 		casadi::SX param_Dl = casadi::SX::zeros(Dl_order*numJoints,1);
-		// casadi::SX::zeros(numJoints,1)
+		bool has_Dl = false;
 		// ----- parsing yaml inertial ----- //
 		try {
 			// load yaml
 			YAML::Node config_file = YAML::LoadFile(file);
 			// load inertial
-			YAML::Node inertial = config_file["inertial"];
+			// files made by save_par_REG and thunder gen hold dynamics/<link>/{inertial,friction}
+			YAML::Node links = config_file["dynamics"] ? config_file["dynamics"] : config_file["inertial"];
 			int i = 0;
-			for (const auto& node : inertial) {
+			for (const auto& node : links) {
 				
 				if (i==numJoints) break;
 				std::string linkName = node.first.as<std::string>();
+				YAML::Node inertial = node.second["inertial"] ? node.second["inertial"] : node.second;
+				YAML::Node friction = node.second["friction"] ? node.second["friction"] : node.second;
 				
 				// standard parameters
-				param_REG(STD_PAR_LINK*i) = node.second["mass"].as<double>();
-				param_REG(STD_PAR_LINK*i+1) = node.second["m_CoM_x"].as<double>();
-				param_REG(STD_PAR_LINK*i+2) = node.second["m_CoM_y"].as<double>();
-				param_REG(STD_PAR_LINK*i+3) = node.second["m_CoM_z"].as<double>();
-				param_REG(STD_PAR_LINK*i+4) = node.second["Ixx"].as<double>();
-				param_REG(STD_PAR_LINK*i+5) = node.second["Ixy"].as<double>();
-				param_REG(STD_PAR_LINK*i+6) = node.second["Ixz"].as<double>();
-				param_REG(STD_PAR_LINK*i+7) = node.second["Iyy"].as<double>();
-				param_REG(STD_PAR_LINK*i+8) = node.second["Iyz"].as<double>();
-				param_REG(STD_PAR_LINK*i+9) = node.second["Izz"].as<double>();
+				param_REG(STD_PAR_LINK*i) = inertial["mass"].as<double>();
+				param_REG(STD_PAR_LINK*i+1) = inertial["m_CoM_x"].as<double>();
+				param_REG(STD_PAR_LINK*i+2) = inertial["m_CoM_y"].as<double>();
+				param_REG(STD_PAR_LINK*i+3) = inertial["m_CoM_z"].as<double>();
+				param_REG(STD_PAR_LINK*i+4) = inertial["Ixx"].as<double>();
+				param_REG(STD_PAR_LINK*i+5) = inertial["Ixy"].as<double>();
+				param_REG(STD_PAR_LINK*i+6) = inertial["Ixz"].as<double>();
+				param_REG(STD_PAR_LINK*i+7) = inertial["Iyy"].as<double>();
+				param_REG(STD_PAR_LINK*i+8) = inertial["Iyz"].as<double>();
+				param_REG(STD_PAR_LINK*i+9) = inertial["Izz"].as<double>();
 
 				// link friction
-				if (node.second["Dl"]){
-					std::vector<double> Dl = node.second["Dl"].as<std::vector<double>>();
+				if (friction["Dl"]){
+					has_Dl = true;
+					std::vector<double> Dl = friction["Dl"].as<std::vector<double>>();
 					for (int j=0; j<Dl_order; j++){
 						param_Dl(Dl_order*i + j) = Dl[j];
 					}
@@ -772,7 +776,7 @@ namespace thunder_ns{
 			std::cerr << "Error while parsing YAML: " << e.what() << std::endl;
 		}
 		args["par_REG"] = param_REG;
-		if (Dl_order > 0) args["par_Dl"] = param_Dl;
+		if (Dl_order > 0 && has_Dl) args["par_Dl"] = param_Dl;
 		if (update_DYN) update_inertial_DYN();
 		return param_REG;
 	}
-- 
2.43.0


From 19f380f7a8f781f20b85aa97127e931b9858b619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:04 +0000
Subject: [PATCH 08/15] fix: add_function takes the symbolic entries of its
 arguments also for par_REG and on computed robots

---
 src/thunder/src/robot.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index b5e9158..cdeaa38 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -344,6 +344,7 @@ namespace thunder_ns{
 		symb.insert({"dqr", dqr_symb});
 		symb.insert({"ddqr", ddqr_symb});
 		symb.insert({"w", w_symb});
+		symb.insert({"par_REG", std::vector<int>(STD_PAR_LINK*numJoints, 1)});
 		if (ELASTIC){
 			std::vector<int> x_symb(numElasticJoints, 1);
 			std::vector<int> dx_symb(numElasticJoints, 1);
@@ -1009,17 +1010,15 @@ namespace thunder_ns{
 				// int sz_original = args[arg].size();
 				// std::cout << "fun: " << f_name << std::endl;
 				// std::cout << "arg: " << arg << std::endl;
-				std::vector<int>& symb_flag = symb[arg];
 				std::vector<casadi::SX> par_symb;
 				casadi::SX& par_model = model[arg];
 				// cout << "model[arg]: " << par_model << endl;
-				// cout << "symb_flag: " << symb_flag << endl;
 				int sz_original = par_model.size().first;
 				// casadi::SX par_model_new = casadi::SX::zeros(sz_original);
 				// casadi::SX new_par(sz_original,1);
 				int sz = 0;
 				for (int i=0; i<sz_original; i++){
-					if (symb_flag[i]){
+					if (casadi::SX(par_model(i)).is_symbolic()){
 						par_symb.push_back(par_model(i));
 						// par_model_new(sz) = par_model(i);
 						sz++;
-- 
2.43.0


From 28d411cf784ac67db37802d9787b4d385c774cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 09/15] fix: genInertial_files failed for robots with link
 friction and overran its list with more links than joints

---
 src/thunder/src/genYaml.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/thunder/src/genYaml.cpp b/src/thunder/src/genYaml.cpp
index 093daa6..66a9fac 100644
--- a/src/thunder/src/genYaml.cpp
+++ b/src/thunder/src/genYaml.cpp
@@ -52,6 +52,7 @@ namespace thunder_ns{
 			int link_index = 0;
 			for (const auto& node : dynamics) {
 
+				if (link_index==num_joints) break; // ignore links beyond the joints
 				YAML::Node inertial = node.second["inertial"];
 				LinkProp properties;
 				std::string linkName = node.first.as<std::string>();
@@ -75,8 +76,10 @@ namespace thunder_ns{
 				if (Dl_order){
 					properties.Dl.resize(Dl_order);
 					YAML::Node friction = node.second["friction"];
-					std::vector<double> Dl = node.second["Dl"].as<std::vector<double>>();
-					properties.Dl = Dl;
+					if (friction && friction["Dl"]){
+						properties.Dl = friction["Dl"].as<std::vector<double>>();
+						properties.Dl.resize(Dl_order);
+					}
 					// std::cout<<"Dl_read: " << Dl << std::endl;
 					// for (int j=0; j<Dl_order; j++){
 					// 	properties.Dl[j] = Dl[j];
-- 
2.43.0


From fac5a281127ae5fc5746b6b88997307292fe4829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 10/15] fix: generated set_par_DYN and set_par_REG recomputed
 the other set also when they refuse a wrong size

---
 src/thunder/thunder_robot_template/thunder_robot.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/thunder/thunder_robot_template/thunder_robot.cpp b/src/thunder/thunder_robot_template/thunder_robot.cpp
index 458e120..de44854 100755
--- a/src/thunder/thunder_robot_template/thunder_robot.cpp
+++ b/src/thunder/thunder_robot_template/thunder_robot.cpp
@@ -190,21 +190,21 @@ void thunder_robot::update_inertial_REG(){
 void thunder_robot::set_par_DYN(const Eigen::VectorXd& par_, bool update_REG){
 	if(par_.size() == par_DYN.size()){
 		par_DYN = par_;
+		// conversion from DYN to REG
+		if (update_REG)	update_inertial_REG();
 	} else{
 		std::cout<<"in setArguments: invalid dimensions of arguments\n";
 	}
-	// conversion from REG to DYN
-	if (update_REG)	update_inertial_REG();
 }
 
 void thunder_robot::set_par_REG(const Eigen::VectorXd& par_, bool update_DYN){
 	if(par_.size() == par_REG.size()){
 		par_REG = par_;
+		// conversion from REG to DYN
+		if (update_DYN)	update_inertial_DYN();
 	} else{
 		std::cout<<"in setArguments: invalid dimensions of arguments\n";
 	}
-	// conversion from REG to DYN
-	if (update_DYN)	update_inertial_DYN();
 }
 
 void thunder_robot::set_par_K(const Eigen::VectorXd& par_){
-- 
2.43.0


From 74e1dfd325095e4f85b53998d8fc2748a3dd5d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 11/15] fix: generated functions pass the symbolic entries of
 partially symbolic parameter vectors

---
 src/thunder/src/utils.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/thunder/src/utils.cpp b/src/thunder/src/utils.cpp
index 09c3c8a..984d459 100755
--- a/src/thunder/src/utils.cpp
+++ b/src/thunder/src/utils.cpp
@@ -217,6 +217,21 @@ namespace thunder_ns{
 				functions_string.append("\tthread_local double buffer["+size_str+"];\n"); // alignas("+size_str+") 
 				functions_string.append("\tthread_local long long p3[" + fun_name_gen + "_fun_SZ_IW];\n");
 				functions_string.append("\tthread_local double p4[" + fun_name_gen + "_fun_SZ_W];\n");
+				// full parameter vectors of which functions take the symbolic entries only
+				for (std::string& arg : fun_args){
+					if (arg != "par_DYN" && arg != "par_Dl" && arg != "par_K" && arg != "par_D" && arg != "par_Dm" && arg != "par_Mm") continue;
+					const std::vector<int>& flags = robot.symb[arg];
+					string entries = "";
+					int num_symb = 0;
+					for (int j=0; j<(int)flags.size(); j++){
+						if (!flags[j]) continue;
+						entries.append((num_symb ? ", " : "") + arg + "(" + to_string(j) + ")");
+						num_symb++;
+					}
+					if (num_symb == 0 || num_symb == (int)flags.size()) continue;
+					functions_string.append("\tconst Eigen::VectorXd " + arg + "_symb = (Eigen::VectorXd(" + to_string(num_symb) + ") << " + entries + ").finished();\n");
+					arg += "_symb";
+				}
 				// inputs
 				if (fun_args.size() == 0){
 					functions_string.append("\tconst double** input_ = nullptr;\n");
-- 
2.43.0


From 48f5a1b36a096ec44c5f977877225cbd4702a5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:37 +0000
Subject: [PATCH 12/15] fix: a num_joints larger than type_joints was read past
 the end before being refused

---
 src/thunder/src/robot.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index cdeaa38..f5a7f4b 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -56,6 +56,9 @@ namespace thunder_ns{
 			nj = config_file["num_joints"].as<int>();
 			this->numJoints = nj;
 			this->jointsType = config_file["type_joints"].as<std::vector<std::string>>();
+			if (this->jointsType.size() != this->numJoints) {
+				throw std::runtime_error("Mismatch between 'num_joints' and the size of 'type_joints' vector.");
+			}
 
 			// Friction model order (defaults to 0)
 			this->Dl_order = config_file["Dl_order"] ? config_file["Dl_order"].as<int>() : 0;
@@ -206,10 +209,6 @@ namespace thunder_ns{
 
 
 			// ---- Finalize Robot State and CasADi Model ---- //
-			if (this->jointsType.size() != this->numJoints) {
-				throw std::runtime_error("Mismatch between 'num_joints' and the size of 'type_joints' vector.");
-			}
-			
 			// Define symbolic variables for the model
 			this->model = {
 				{"par_DHtable", casadi::SX::sym("DHtable", this->numJoints * 4)},
-- 
2.43.0


From d7ae765c91d996b71e5e5643a79d1935bb1ef1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:52 +0000
Subject: [PATCH 13/15] fix: thunder gen crashed when HOME is not set

---
 src/thunder/thunder_main.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/thunder/thunder_main.cpp b/src/thunder/thunder_main.cpp
index b8ed7a8..5512116 100755
--- a/src/thunder/thunder_main.cpp
+++ b/src/thunder/thunder_main.cpp
@@ -153,9 +153,6 @@ int main(int argc, char* argv[]){
 	std::string thunder_robot_h_path;
 	std::string python_cmake_file;
 
-	// Get home/.local/share directory
-	std::string home = std::getenv("HOME");
-	// std::string template_path = home + "/.local/share/thunder_dynamics/thunder_robot_template/";
 	std::string template_path = "/usr/local/share/thunder_dynamics/thunder_robot_template/";
 
 	if (std::filesystem::is_directory(template_path)){
-- 
2.43.0


From 39fe9cc9e5fc6b08419bd89fdc99850c3f2f2fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:08 +0000
Subject: [PATCH 14/15] fix: generated functions of a robot named <a>_reg
 clashed with the regressors of a robot named <a>

---
 src/thunder/src/robot.cpp | 2 +-
 src/thunder/src/utils.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index f5a7f4b..c360973 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -1035,7 +1035,7 @@ namespace thunder_ns{
 				arg_index++;
 			}
 
-			casadi::Function fun(robotName+"_"+f_name+"_fun", inputs, {densify(expr)});
+			casadi::Function fun(robotName+"_gen_"+f_name+"_fun", inputs, {densify(expr)});
 			// cout<<"fun: "<<fun<<endl;
 			casadi_fun[f_name] = fun;
 		}
diff --git a/src/thunder/src/utils.cpp b/src/thunder/src/utils.cpp
index 984d459..0e87e0b 100755
--- a/src/thunder/src/utils.cpp
+++ b/src/thunder/src/utils.cpp
@@ -199,7 +199,7 @@ namespace thunder_ns{
 
 			for (int i=0; i<functions.size(); i++){
 				std::string fun_name = "get_" + functions[i].name;
-				std::string fun_name_gen = robotName + "_" + functions[i].name;
+				std::string fun_name_gen = robotName + "_gen_" + functions[i].name;
 				std::vector<std::string> fun_args = functions[i].args;
 				std::vector<int> out_size = functions[i].out_size;
 				// // function arguments
-- 
2.43.0


From b9dad254eb780b7bc8ed18210f371896cfaf29e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:07 +0000
Subject: [PATCH 15/15] fix: compute_example_fun lists q0 as an argument
 although it is a constant of the function

The robot has no parameter q0, so the class generated with the example
enabled refers to a member that does not exist and does not compile.
---
 src/thunder/src/userDefined.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thunder/src/userDefined.cpp b/src/thunder/src/userDefined.cpp
index f8cd6f6..7bb5348 100644
--- a/src/thunder/src/userDefined.cpp
+++ b/src/thunder/src/userDefined.cpp
@@ -41,7 +41,7 @@ namespace thunder_ns{
 			casadi::SX q0_dist = casadi::SX::norm_2(q-q0);
 
 			// --- save function into robot --- //
-			std::vector<std::string> arg_list = robot.obtain_symb_parameters({"q", "q0"}, {});
+			std::vector<std::string> arg_list = robot.obtain_symb_parameters({"q"}, {});
 			if (!robot.add_function("q0_dist", q0_dist, arg_list, "distance from q0")) return 0;
 			// when you create the library, the function "get_q_dist()" into thunder_<robot> will return the distance from q0
 		}
-- 
2.43.0

