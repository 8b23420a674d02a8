From 39e2945f009ea9fd42b4dc8dcd6b567e85013101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:01 +0000
Subject: [PATCH 01/19] fix: report an unsolvable (singular) pressure equation
 instead of accepting a runaway solution

---
 src/OpenMps/Computer.hpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/OpenMps/Computer.hpp b/src/OpenMps/Computer.hpp
index 3fa81f8..bfd7dbe 100644
--- a/src/OpenMps/Computer.hpp
+++ b/src/OpenMps/Computer.hpp
@@ -509,6 +509,9 @@ namespace { namespace OpenMps
 			// 収束判定（許容誤差）
 			double allowableResidual;
 
+			// 係数行列の対角項の最大の大きさ
+			double maxDiagonal = 0;
+
 			// 共役勾配法で使う用
 			struct ConjugateGradient
 			{
@@ -1349,6 +1352,13 @@ namespace { namespace OpenMps
 			}
 #endif
 
+			// 対角項の最大の大きさを保存しておく
+			ppe.maxDiagonal = 0;
+			for (auto i = decltype(n){0}; i < n; i++)
+			{
+				ppe.maxDiagonal = std::max(ppe.maxDiagonal, std::abs(static_cast<double>(A(i, i))));
+			}
+
 #ifdef USE_VIENNACL
 			// 作成した係数行列をデバイス側に複製
 			viennacl::copy(ppe.tempA, ppe.A);
@@ -1398,7 +1408,17 @@ namespace { namespace OpenMps
 				//  r' -= αAp
 				//  r'r' = r'・r'
 				Ap = op::prod(A, p);
-				const auto alpha = rr / op::inner_prod(p, Ap);
+				const double pAp = op::inner_prod(p, Ap);
+
+				// 探索方向に対して係数行列が（丸め誤差の範囲で）特異な場合は解けない
+				constexpr auto SINGULAR = 64 * std::numeric_limits<double>::epsilon();
+				const double pp = op::inner_prod(p, p);
+				if (std::abs(pAp) <= SINGULAR * ppe.maxDiagonal * pp)
+				{
+					break;
+				}
+
+				const auto alpha = rr / pAp;
 				x += alpha * p;
 				r -= alpha * Ap;
 				const auto rrNew = op::inner_prod(r, r);
-- 
2.43.0


From 0fb0620b6531977781f81f728d656ba3b313da14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 02/19] fix: clear every block of a 3D search grid whose Y
 extent differs from its X extent

---
 src/OpenMps/Grid.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/OpenMps/Grid.hpp b/src/OpenMps/Grid.hpp
index 1ea3925..462e2a5 100644
--- a/src/OpenMps/Grid.hpp
+++ b/src/OpenMps/Grid.hpp
@@ -166,7 +166,7 @@ namespace { namespace OpenMps
 			for (auto i = decltype(nx){0}; i < nx; i++)
 			{
 #ifdef DIM3
-				for (auto j = decltype(ny){0}; j < nx; j++)
+				for (auto j = decltype(ny){0}; j < ny; j++)
 				{
 #endif
 					for (auto k = decltype(nz){0}; k < nz; k++)
@@ -195,7 +195,7 @@ namespace { namespace OpenMps
 			for (auto i = decltype(nx){0}; i < nx; i++)
 			{
 #ifdef DIM3
-				for (auto j = decltype(ny){0}; j < nx; j++)
+				for (auto j = decltype(ny){0}; j < ny; j++)
 				{
 #endif
 					for (auto k = decltype(nz){0}; k < nz; k++)
@@ -229,7 +229,7 @@ namespace { namespace OpenMps
 			for (auto i = decltype(nx){0}; i < nx; i++)
 			{
 #ifdef DIM3
-				for (auto j = decltype(ny){0}; j < nx; j++)
+				for (auto j = decltype(ny){0}; j < ny; j++)
 				{
 #endif
 					for (auto k = decltype(nz){0}; k < nz; k++)
-- 
2.43.0


From ea499aff2c90bda740c131513564c4bc37f68863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:46 +0000
Subject: [PATCH 03/19] fix: return the inverse, not its transpose, from the 3D
 gradient correction

---
 src/OpenMps/Computer.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/OpenMps/Computer.hpp b/src/OpenMps/Computer.hpp
index bfd7dbe..64c66fc 100644
--- a/src/OpenMps/Computer.hpp
+++ b/src/OpenMps/Computer.hpp
@@ -412,9 +412,10 @@ namespace { namespace OpenMps
 							a00, a01,
 							a10, a11);
 
-						mat(0, 0) = +A00 / det; mat(0, 1) = -A01 / det; mat(0, 2) = +A02 / det;
-						mat(1, 0) = -A10 / det; mat(1, 1) = +A11 / det; mat(1, 2) = -A12 / det;
-						mat(2, 0) = +A20 / det; mat(2, 1) = -A21 / det; mat(2, 2) = +A22 / det;
+						// 逆行列は余因子行列の転置
+						mat(0, 0) = +A00 / det; mat(0, 1) = -A10 / det; mat(0, 2) = +A20 / det;
+						mat(1, 0) = -A01 / det; mat(1, 1) = +A11 / det; mat(1, 2) = -A21 / det;
+						mat(2, 0) = +A02 / det; mat(2, 1) = -A12 / det; mat(2, 2) = +A22 / det;
 
 						return mat;
 					}
-- 
2.43.0


From f27b9b99b5924d62abf6fa48bbd591f838abf910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:07 +0000
Subject: [PATCH 04/19] fix: treat a moment matrix that is singular up to
 rounding as singular in the gradient correction

---
 src/OpenMps/Computer.hpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/OpenMps/Computer.hpp b/src/OpenMps/Computer.hpp
index 64c66fc..f3b8f33 100644
--- a/src/OpenMps/Computer.hpp
+++ b/src/OpenMps/Computer.hpp
@@ -311,6 +311,15 @@ namespace { namespace OpenMps
 
 		namespace Detail
 		{
+			// 行列式が丸め誤差の範囲でゼロ（＝特異行列）かどうか
+			// @param det 行列式
+			// @param scale 行列式の各項の大きさの和
+			inline bool IsSingular(const double det, const double scale)
+			{
+				constexpr auto SINGULAR = 64 * std::numeric_limits<double>::epsilon();
+				return std::abs(det) <= SINGULAR * scale;
+			}
+
 			template<decltype(DIM) D>
 			struct InvertMatrix;
 
@@ -334,7 +343,7 @@ namespace { namespace OpenMps
 						a, b,
 						c, d);
 
-					if (det == 0)
+					if (IsSingular(det, std::abs(a * d) + std::abs(b * c)))
 					{
 						return IdentityMatrix(val);
 					}
@@ -376,8 +385,15 @@ namespace { namespace OpenMps
 						a00, a01, a02,
 						a10, a11, a12,
 						a20, a21, a22);
-
-					if (det == 0)
+					const auto scale =
+						+ std::abs(a00 * a11 * a22)
+						+ std::abs(a01 * a12 * a20)
+						+ std::abs(a02 * a10 * a21)
+						+ std::abs(a00 * a12 * a21)
+						+ std::abs(a01 * a10 * a22)
+						+ std::abs(a02 * a11 * a20);
+
+					if (IsSingular(det, scale))
 					{
 						return IdentityMatrix(val);
 					}
-- 
2.43.0


From 9e0d4286434a80320c69cf4bc847f28c5dc48aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:26 +0000
Subject: [PATCH 05/19] fix: ignore removed particles, and accept an empty
 scene, when choosing the time step

---
 src/OpenMps/Computer.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/OpenMps/Computer.hpp b/src/OpenMps/Computer.hpp
index f3b8f33..d4dbb44 100644
--- a/src/OpenMps/Computer.hpp
+++ b/src/OpenMps/Computer.hpp
@@ -780,16 +780,17 @@ namespace { namespace OpenMps
 		{
 			namespace ublas = boost::numeric::ublas;
 
-			// 最大速度を取得
-			const auto maxUParticle = *std::max_element(particles.cbegin(), particles.cend(),
-				[](const Particle& base, const Particle& target)
+			// 最大速度を取得（無効粒子は除く）
+			double maxU2 = 0;
+			for (const auto& particle : particles)
 			{
-				const auto& baseU = base.U();
-				const auto& targetU = target.U();
-				return (ublas::inner_prod(baseU, baseU) < ublas::inner_prod(targetU, targetU));
-			});
-			const auto maxU = ublas::norm_2(maxUParticle.U());
-
+				if (particle.TYPE() != Particle::Type::Disabled)
+				{
+					const auto& u = particle.U();
+					maxU2 = std::max(maxU2, ublas::inner_prod(u, u));
+				}
+			}
+			const auto maxU = std::sqrt(maxU2);
 
 			// CFL条件より時間刻みを決定する
 			const auto dt = (maxU == 0 ? environment.MaxDt : std::min(environment.MaxDx / maxU, environment.MaxDt));
-- 
2.43.0


From b2001f817c1a80b7db655a1d1d04fade7ed69bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:26 +0000
Subject: [PATCH 06/19] fix: report an overcrowded search block like any other
 failed computation instead of terminating

---
 src/OpenMps/Main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OpenMps/Main.cpp b/src/OpenMps/Main.cpp
index 4769219..7caa337 100644
--- a/src/OpenMps/Main.cpp
+++ b/src/OpenMps/Main.cpp
@@ -384,7 +384,7 @@ int main(const int argc, const char* const argv[])
 			printTime(tComputer, iteration, outputCount + outputIterationOffset, count);
 		}
 		// 計算で例外があったら
-		catch(decltype(computer)::Exception ex)
+		catch(const std::runtime_error& ex)
 		{
 			// エラーメッセージを出して止める
 			std::cout << "!!!!ERROR!!!!" << std::endl
-- 
2.43.0


From b1c8cfbf651f1e0c2dcfab3cc1fa30b89c70ff2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:26 +0000
Subject: [PATCH 07/19] fix: count outputs exactly when the quotient of time
 and output interval rounds off an integer

---
 src/OpenMps/Main.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/OpenMps/Main.cpp b/src/OpenMps/Main.cpp
index 7caa337..9e7036b 100644
--- a/src/OpenMps/Main.cpp
+++ b/src/OpenMps/Main.cpp
@@ -273,6 +273,17 @@ namespace
 		);
 	}
 
+	// 出力間隔何回分に相当するかを切り上げで求める（丸め誤差で整数からわずかにずれた場合はその整数とする）
+	// @param time 時間
+	// @param outputInterval 出力間隔
+	inline auto OutputIteration(const double time, const double outputInterval)
+	{
+		const auto ratio = time / outputInterval;
+		const auto nearest = std::round(ratio);
+		const bool isInteger = (std::abs(ratio - nearest) <= 1e-9 * std::max(1.0, nearest));
+		return static_cast<std::size_t>(isInteger ? nearest : std::ceil(ratio));
+	}
+
 	template<typename T>
 	static void System(T&& arg)
 	{
@@ -333,7 +344,7 @@ int main(const int argc, const char* const argv[])
 	timer.Start();
 	boost::format timeFormat("#%3$05d: t=%1$8.4lf (%2$05d), %10$12d particles, @ %4$02d/%5$02d %6$02d:%7$02d:%8$02d (%9$8.2lf)");
 
-	const auto outputIterationOffset = static_cast<std::size_t>(std::ceil(condition.StartTime / condition.OutputInterval));
+	const auto outputIterationOffset = OutputIteration(condition.StartTime, condition.OutputInterval);
 
 	// 開始時間を画面表示
 	const auto printTime = [&timeFormat, &timer](const auto tComputer, const auto iteration, const auto outputCount, const auto count)
@@ -359,7 +370,7 @@ int main(const int argc, const char* const argv[])
 	// 計算が終了するまで
 	double nextOutputT = 0;
 	std::size_t iteration = 0;
-	const auto endCount = static_cast<std::size_t>(std::ceil((condition.EndTime - condition.StartTime) / condition.OutputInterval));
+	const auto endCount = OutputIteration(condition.EndTime - condition.StartTime, condition.OutputInterval);
 	for(auto outputCount = decltype(endCount){1}; outputCount <= endCount; outputCount++)
 	{
 		double tComputer = computer.GetEnvironment().T();
-- 
2.43.0


From 5532ef319f98cf8f3bfc444f10de0904da327cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:46 +0000
Subject: [PATCH 08/19] fix: reject input without particle text, with rows that
 are too short or without a particle format instead of reading out of bounds

---
 src/OpenMps/Main.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/OpenMps/Main.cpp b/src/OpenMps/Main.cpp
index 9e7036b..6708b53 100644
--- a/src/OpenMps/Main.cpp
+++ b/src/OpenMps/Main.cpp
@@ -74,10 +74,6 @@ namespace
 		std::vector<std::string> input;
 		boost::algorithm::split(input, csv, boost::is_any_of("\n"));
 
-		// 先頭の空行は飛ばす
-		auto itr = input.cbegin();
-		for (; itr->size() == 0; ++itr) {}
-
 		// 行をカンマ区切りで分割する関数
 		const auto GetItems = [](std::string str)
 		{
@@ -95,6 +91,14 @@ namespace
 			return data;
 		};
 
+		// 先頭の空行は飛ばす
+		auto itr = input.cbegin();
+		for (; (itr != input.cend()) && (GetItems(*itr).size() == 0); ++itr) {}
+		if (itr == input.cend())
+		{
+			throw std::runtime_error("No header in input csv");
+		}
+
 		// ヘッダー項目の列番号を取得（ない場合は0が入る）
 		constexpr std::size_t HEADER_NOT_FOUND = 0;
 		auto header = std::unordered_map<std::string, std::size_t>(
@@ -113,10 +117,12 @@ namespace
 			{ "p", HEADER_NOT_FOUND },
 			{ "n", HEADER_NOT_FOUND },
 		});
+		std::size_t columnCount = 0;
 		{
 			// 先頭行を読み込み
 			auto& line = *itr; ++itr;
 			const auto headerItems = GetItems(line);
+			columnCount = headerItems.size();
 			for (auto i = decltype(headerItems.size())(0); i < headerItems.size(); i++)
 			{
 				const auto name = headerItems[i];
@@ -150,6 +156,12 @@ namespace
 			const auto data = GetItems(line);
 			if (data.size() > 0) // 空行は飛ばす
 			{
+				// 列が足りない行があったらエラー
+				if (data.size() < columnCount)
+				{
+					throw std::runtime_error("Some item doesn't exist in input csv");
+				}
+
 				auto particle = OpenMps::Particle(static_cast<OpenMps::Particle::Type>(stov<std::underlying_type_t<OpenMps::Particle::Type>>(data[header["Type"]])));
 
 				// 位置ベクトル
@@ -186,7 +198,7 @@ namespace
 	inline decltype(auto) LoadParticles(const boost::property_tree::ptree& xml)
 	{
 		// 粒子データの読み込み
-		const auto type = xml.get_optional<std::string>("openmps.particles.<xmlattr>.type").get();
+		const auto type = xml.get<std::string>("openmps.particles.<xmlattr>.type");
 		if (type == "csv")
 		{
 			auto&& txt = xml.get<std::string>("openmps.particles");
-- 
2.43.0


From 11715a3fb6e9d1af1042b4e9475226828bffd6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:46 +0000
Subject: [PATCH 09/19] fix: reject particle values with trailing characters
 and unknown particle types instead of misreading them

---
 src/OpenMps/Main.cpp | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/OpenMps/Main.cpp b/src/OpenMps/Main.cpp
index 6708b53..107f47e 100644
--- a/src/OpenMps/Main.cpp
+++ b/src/OpenMps/Main.cpp
@@ -66,6 +66,19 @@ namespace
 		return nonDisalbeCount;
 	}
 
+	// 文字列全体を数値に変換する（余計な文字が残る場合はエラー）
+	template<typename T>
+	inline auto ParseItem(const std::string& item)
+	{
+		std::size_t length = 0;
+		const auto value = stov<T>(item, &length);
+		if (length != item.size())
+		{
+			throw std::invalid_argument("Illegal value in input csv");
+		}
+		return value;
+	}
+
 	// 粒子を読み込む
 	inline auto InputFromCsv(const std::string& csv)
 	{
@@ -80,7 +93,7 @@ namespace
 			str.erase(std::remove_if(str.begin(), str.end(),
 				[](const char c)
 				{
-					return (c == ' ') || (c == '\t');
+					return (c == ' ') || (c == '\t') || (c == '\r');
 				}), str.end());
 
 			std::vector<std::string> data;
@@ -162,27 +175,32 @@ namespace
 					throw std::runtime_error("Some item doesn't exist in input csv");
 				}
 
-				auto particle = OpenMps::Particle(static_cast<OpenMps::Particle::Type>(stov<std::underlying_type_t<OpenMps::Particle::Type>>(data[header["Type"]])));
+				const auto type = ParseItem<std::underlying_type_t<OpenMps::Particle::Type>>(data[header["Type"]]);
+				if ((type < static_cast<decltype(type)>(OpenMps::Particle::Type::IncompressibleNewton)) || (static_cast<decltype(type)>(OpenMps::Particle::Type::Disabled) < type))
+				{
+					throw std::runtime_error("Illegal particle type in input csv");
+				}
+				auto particle = OpenMps::Particle(static_cast<OpenMps::Particle::Type>(type));
 
 				// 位置ベクトル
-				particle.X()[OpenMps::AXIS_X] = stov<double>(data[header["x"]]);
+				particle.X()[OpenMps::AXIS_X] = ParseItem<double>(data[header["x"]]);
 #ifdef DIM3
-				particle.X()[OpenMps::AXIS_Y] = stov<double>(data[header["y"]]);
+				particle.X()[OpenMps::AXIS_Y] = ParseItem<double>(data[header["y"]]);
 #endif
-				particle.X()[OpenMps::AXIS_Z] = stov<double>(data[header["z"]]);
+				particle.X()[OpenMps::AXIS_Z] = ParseItem<double>(data[header["z"]]);
 
 				// 速度ベクトル
-				particle.U()[OpenMps::AXIS_X] = stov<double>(data[header["u"]]);
+				particle.U()[OpenMps::AXIS_X] = ParseItem<double>(data[header["u"]]);
 #ifdef DIM3
-				particle.U()[OpenMps::AXIS_Y] = stov<double>(data[header["v"]]);
+				particle.U()[OpenMps::AXIS_Y] = ParseItem<double>(data[header["v"]]);
 #endif
-				particle.U()[OpenMps::AXIS_Z] = stov<double>(data[header["w"]]);
+				particle.U()[OpenMps::AXIS_Z] = ParseItem<double>(data[header["w"]]);
 
 				// 圧力
-				particle.P() = stov<double>(data[header["p"]]);
+				particle.P() = ParseItem<double>(data[header["p"]]);
 
 				// 粒子数密度
-				particle.N() = stov<double>(data[header["n"]]);
+				particle.N() = ParseItem<double>(data[header["n"]]);
 
 				particles.push_back(std::move(particle));
 			}
-- 
2.43.0


From f06b3253ea5fa9369228cd1cc4210506769149d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:35 +0000
Subject: [PATCH 10/19] fix: report the time of a failed step on the same clock
 as the other messages

---
 src/OpenMps/Main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OpenMps/Main.cpp b/src/OpenMps/Main.cpp
index 107f47e..6a91278 100644
--- a/src/OpenMps/Main.cpp
+++ b/src/OpenMps/Main.cpp
@@ -429,7 +429,7 @@ int main(const int argc, const char* const argv[])
 		{
 			// エラーメッセージを出して止める
 			std::cout << "!!!!ERROR!!!!" << std::endl
-				<< boost::format("#%3%: t=%1% (%2%)") % tComputer % iteration % (outputCount + outputIterationOffset) << std::endl
+				<< boost::format("#%3%: t=%1% (%2%)") % (tComputer + condition.StartTime) % iteration % (outputCount + outputIterationOffset) << std::endl
 				<< ex.what() << std::endl;
 			break;
 		}
-- 
2.43.0


From 2251efba152ea9ad8e145677f323df34dee6a857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:15 +0000
Subject: [PATCH 11/19] fix: let particles be added between steps (the pressure
 equation could not change its size)

---
 src/OpenMps/Computer.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/OpenMps/Computer.hpp b/src/OpenMps/Computer.hpp
index d4dbb44..24043e0 100644
--- a/src/OpenMps/Computer.hpp
+++ b/src/OpenMps/Computer.hpp
@@ -1183,15 +1183,17 @@ namespace { namespace OpenMps
 			if (n != ppe.b.size())
 			{
 				// サイズを変えて作り直し
-				ppe.A = typename Ppe::Matrix {n, n};
-				ppe.x = typename Ppe::LongVector(n);
-				ppe.b = typename Ppe::LongVector(n);
-				ppe.cg.r = typename Ppe::LongVector(n);
-				ppe.cg.p = typename Ppe::LongVector(n);
-				ppe.cg.Ap = typename Ppe::LongVector(n);
+				//  ※ViennaCLでは大きさの違うものを代入できない
+				constexpr bool preserve = false;
+				ppe.A.resize(n, n, preserve);
+				ppe.x.resize(n, preserve);
+				ppe.b.resize(n, preserve);
+				ppe.cg.r.resize(n, preserve);
+				ppe.cg.p.resize(n, preserve);
+				ppe.cg.Ap.resize(n, preserve);
 
 #ifdef USE_VIENNACL
-				ppe.tempA = typename Ppe::TempMatrix(n, n);
+				ppe.tempA.resize(n, n, preserve);
 #endif
 
 #ifdef _OPENMP
-- 
2.43.0


From 786c061156613107094b208438992d1ddf189817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:56 +0000
Subject: [PATCH 12/19] fix: let a scene without particles be stepped instead
 of failing in the linear algebra backend

---
 src/OpenMps/Computer.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/OpenMps/Computer.hpp b/src/OpenMps/Computer.hpp
index 24043e0..39b2340 100644
--- a/src/OpenMps/Computer.hpp
+++ b/src/OpenMps/Computer.hpp
@@ -1087,6 +1087,12 @@ namespace { namespace OpenMps
 				particle.P() = (rho <= rho0) ? 0 : c*c*(rho - rho0);
 			}
 #else
+			// 粒子がなければ解くべき方程式もない
+			if (n == 0)
+			{
+				return;
+			}
+
 			// 圧力方程式を設定
 			SetPressurePoissonEquation();
 
-- 
2.43.0


From 21109ec3ee266d8e9955b0ca1ed83157177be967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:26 +0000
Subject: [PATCH 13/19] fix: accept subnormal values, which an output file can
 contain, when reading particles

---
 src/OpenMps/Main.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/OpenMps/Main.cpp b/src/OpenMps/Main.cpp
index 6a91278..0d8ba5f 100644
--- a/src/OpenMps/Main.cpp
+++ b/src/OpenMps/Main.cpp
@@ -1,6 +1,9 @@
 ﻿#include <iostream>
 #include <fstream>
 #include <ctime>
+#include <cerrno>
+#include <cmath>
+#include <cstdlib>
 #include <type_traits>
 #include <sstream>
 #include <unordered_map>
@@ -71,8 +74,24 @@ namespace
 	inline auto ParseItem(const std::string& item)
 	{
 		std::size_t length = 0;
-		const auto value = stov<T>(item, &length);
-		if (length != item.size())
+		T value{};
+		if constexpr (std::is_same<T, double>::value)
+		{
+			// std::stodは非正規化数（計算結果には現れうる）も範囲外とするので使わない
+			char* end = nullptr;
+			errno = 0;
+			value = std::strtod(item.c_str(), &end);
+			length = static_cast<std::size_t>(end - item.c_str());
+			if ((errno == ERANGE) && (std::abs(value) > 1))
+			{
+				throw std::out_of_range("Too large value in input csv");
+			}
+		}
+		else
+		{
+			value = stov<T>(item, &length);
+		}
+		if ((length == 0) || (length != item.size()))
 		{
 			throw std::invalid_argument("Illegal value in input csv");
 		}
-- 
2.43.0


From 51536f8281f6901944afce8a50db58117c23a75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:22 +0000
Subject: [PATCH 14/19] fix: report an output file that could not be written
 instead of ending as if it were complete

---
 src/OpenMps/Main.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/OpenMps/Main.cpp b/src/OpenMps/Main.cpp
index 0d8ba5f..5e54ff7 100644
--- a/src/OpenMps/Main.cpp
+++ b/src/OpenMps/Main.cpp
@@ -66,6 +66,13 @@ namespace
 			}
 		}
 
+		// 書き込みに失敗していたらエラー（閉じるまでは書き込みが完了しない）
+		output.close();
+		if (!output)
+		{
+			throw std::runtime_error("Couldn't write " + filename);
+		}
+
 		return nonDisalbeCount;
 	}
 
-- 
2.43.0


From 0984119e038f5e58b8f5660ac451411805f6c6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:27 +0000
Subject: [PATCH 15/19] fix: keep positions too far away for a block number (or
 not a number) out of the grid without undefined conversion

---
 src/OpenMps/Grid.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/OpenMps/Grid.hpp b/src/OpenMps/Grid.hpp
index 462e2a5..8526512 100644
--- a/src/OpenMps/Grid.hpp
+++ b/src/OpenMps/Grid.hpp
@@ -1,7 +1,9 @@
 ﻿#ifndef GRID_INCLUDED
 #define GRID_INCLUDED
 
+#include <cmath>
 #include <iterator>
+#include <limits>
 #include <array>
 #include <boost/multi_array.hpp>
 
@@ -88,7 +90,10 @@ namespace { namespace OpenMps
 		}
 		static auto Floor(const double a, const double b)
 		{
-			return static_cast<Index>(std::floor(a / b));
+			// 整数で表せないほど遠い位置や非数は領域外とする
+			const auto index = std::floor(a / b);
+			constexpr auto LIMIT = static_cast<double>(std::numeric_limits<Index>::max());
+			return (std::abs(index) < LIMIT) ? static_cast<Index>(index) : Index{ -1 };
 		}
 
 		// 最大ブロック数
-- 
2.43.0


From 3674a848cac4cf0908e0a53e6ef3ded4cf6b244f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:17 +0000
Subject: [PATCH 16/19] fix: end at the initial state when the end time lies
 before the start time instead of running forever

---
 src/OpenMps/Main.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/OpenMps/Main.cpp b/src/OpenMps/Main.cpp
index 5e54ff7..c46ad11 100644
--- a/src/OpenMps/Main.cpp
+++ b/src/OpenMps/Main.cpp
@@ -337,7 +337,10 @@ namespace
 		const auto ratio = time / outputInterval;
 		const auto nearest = std::round(ratio);
 		const bool isInteger = (std::abs(ratio - nearest) <= 1e-9 * std::max(1.0, nearest));
-		return static_cast<std::size_t>(isInteger ? nearest : std::ceil(ratio));
+		const auto iteration = isInteger ? nearest : std::ceil(ratio);
+
+		// 負の時間（開始時刻より前の終了時刻など）は0回とする
+		return (iteration > 0) ? static_cast<std::size_t>(iteration) : std::size_t{0};
 	}
 
 	template<typename T>
-- 
2.43.0


From c3ef8f950ef403c11271e5319ff2a2e6a56ff72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:35 +0000
Subject: [PATCH 17/19] fix: reject an output interval that is not positive
 instead of running forever

---
 src/OpenMps/Main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/OpenMps/Main.cpp b/src/OpenMps/Main.cpp
index c46ad11..69b2376 100644
--- a/src/OpenMps/Main.cpp
+++ b/src/OpenMps/Main.cpp
@@ -316,6 +316,10 @@ namespace
 		const auto startTime = xml.get<double>("openmps.condition.startTime.<xmlattr>.value");
 		const auto endTime = xml.get<double>("openmps.condition.endTime.<xmlattr>.value");
 		const auto outputInterval = xml.get<double>("openmps.condition.outputInterval.<xmlattr>.value");
+		if(!(outputInterval > 0))
+		{
+			throw std::runtime_error("Output interval must be positive!");
+		}
 #ifndef PRESSURE_EXPLICIT
 		const auto eps = xml.get<double>("openmps.condition.eps.<xmlattr>.value");
 #endif
-- 
2.43.0


From 96efd44caedeae695f513196f005c3c55ec7b1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:13 +0000
Subject: [PATCH 18/19] fix: the diagonal entries of dummy particles do not set
 the scale of a singular pressure equation

---
 src/OpenMps/Computer.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/OpenMps/Computer.hpp b/src/OpenMps/Computer.hpp
index 39b2340..a6bc654 100644
--- a/src/OpenMps/Computer.hpp
+++ b/src/OpenMps/Computer.hpp
@@ -1379,10 +1379,18 @@ namespace { namespace OpenMps
 #endif
 
 			// 対角項の最大の大きさを保存しておく
+			//  ※ダミー粒子などの1は、大きさが長さの単位に依らず圧力の係数とは比較できないので除く
 			ppe.maxDiagonal = 0;
 			for (auto i = decltype(n){0}; i < n; i++)
 			{
-				ppe.maxDiagonal = std::max(ppe.maxDiagonal, std::abs(static_cast<double>(A(i, i))));
+				if((particles[i].TYPE() != Particle::Type::Dummy) && (particles[i].TYPE() != Particle::Type::Disabled)
+#ifndef MPS_SPP
+					&& !IsSurface(particles[i].N(), n0, surfaceRatio)
+#endif
+					)
+				{
+					ppe.maxDiagonal = std::max(ppe.maxDiagonal, std::abs(static_cast<double>(A(i, i))));
+				}
 			}
 
 #ifdef USE_VIENNACL
-- 
2.43.0


From edf383185f7a8240123eaf2803c8c172aea9c8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:29 +0000
Subject: [PATCH 19/19] fix: the threshold for a particle in the middle of its
 neighbours does not depend on the unit of length

---
 src/OpenMps/Computer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OpenMps/Computer.hpp b/src/OpenMps/Computer.hpp
index a6bc654..e53e7d0 100644
--- a/src/OpenMps/Computer.hpp
+++ b/src/OpenMps/Computer.hpp
@@ -692,7 +692,7 @@ namespace { namespace OpenMps
 				if (thisN < n0)
 				{
 					const auto r_g = std::sqrt(boost::numeric::ublas::inner_prod(dx_g, dx_g));
-					if (r_g > std::numeric_limits<double>::epsilon()) // 周囲に粒子が全く存在しない場合（0除算回避）
+					if (r_g > std::numeric_limits<double>::epsilon() * environment.L_0) // 周囲に粒子が全く存在しない場合（0除算回避）
 					{
 						const auto w_spp = n0 - thisN;
 						const auto r_spp = r_e / (w_spp + 1);
-- 
2.43.0

