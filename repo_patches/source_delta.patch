From 7ae6b77c7e096ae2af75c8b3bdef274b1b6abce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:59 +0000
Subject: [PATCH 01/68] fix: degree with respect to a variable group of
 negations, powers and transcendental functions

The degree was the sum of the degrees in each variable, so that -(x+y) had degree 2
and (x+y)^2 had degree 4, and a non-polynomial dependence on an early variable of the
group was masked by later ones.  Homogenization relies on these degrees.
---
 .../function_tree/operators/arithmetic.hpp    | 13 +++
 .../bertini2/function_tree/operators/trig.hpp |  2 +
 .../function_tree/operators/arithmetic.cpp    | 85 +++++++++++++++----
 core/src/function_tree/operators/operator.cpp | 10 +--
 core/src/function_tree/operators/trig.cpp     | 12 +++
 5 files changed, 95 insertions(+), 27 deletions(-)

diff --git a/core/include/bertini2/function_tree/operators/arithmetic.hpp b/core/include/bertini2/function_tree/operators/arithmetic.hpp
index 379982d..7b16030 100644
--- a/core/include/bertini2/function_tree/operators/arithmetic.hpp
+++ b/core/include/bertini2/function_tree/operators/arithmetic.hpp
@@ -646,6 +646,11 @@ namespace node{
 				
 		PowerOperator() = default;
 		
+		/**
+		 Compute the degree of this node, from the degrees of the base and the exponent.
+		*/
+		int DegreeFromOperands(int base_deg, int exp_deg) const;
+
 		std::shared_ptr<Node> base_;
 		std::shared_ptr<Node> exponent_;
 		
@@ -727,6 +732,8 @@ namespace node{
 		 Compute the degree of a node.  For integer power functions, the degree is the product of the degree of the argument, and the power.
 		 */
 		int Degree(std::shared_ptr<Variable> const& v = nullptr) const override;
+
+		int Degree(VariableGroup const& vars) const override;
 		
 		
 		bool IsHomogeneous(std::shared_ptr<Variable> const& v = nullptr) const override
@@ -865,6 +872,8 @@ namespace node{
 		 For the square root function, the degree is 0 if the argument is constant, otherwise it's undefined, and we return -1.
 		 */
 		int Degree(std::shared_ptr<Variable> const& v = nullptr) const override;
+
+		int Degree(VariableGroup const& vars) const override;
 		
 
 		virtual ~SqrtOperator() = default;
@@ -944,6 +953,8 @@ namespace node{
 		 For transcendental functions, the degree is 0 if the argument is constant, otherwise it's undefined, and we return -1.
 		 */
 		int Degree(std::shared_ptr<Variable> const& v = nullptr) const override;
+
+		int Degree(VariableGroup const& vars) const override;
 		
 
 		virtual ~ExpOperator() = default;
@@ -1010,6 +1021,8 @@ namespace node{
 		 For transcendental functions, the degree is 0 if the argument is constant, otherwise it's undefined, and we return -1.
 		 */
 		int Degree(std::shared_ptr<Variable> const& v = nullptr) const override;
+
+		int Degree(VariableGroup const& vars) const override;
 		
 
 		virtual ~LogOperator() = default;
diff --git a/core/include/bertini2/function_tree/operators/trig.hpp b/core/include/bertini2/function_tree/operators/trig.hpp
index 2d41cfe..3c03c8f 100644
--- a/core/include/bertini2/function_tree/operators/trig.hpp
+++ b/core/include/bertini2/function_tree/operators/trig.hpp
@@ -68,6 +68,8 @@ namespace node{
 		 For transcendental functions, the degree is 0 if the argument is constant, otherwise it's undefined, and we return -1.
 		 */
 		int Degree(std::shared_ptr<Variable> const& v = nullptr) const override;
+
+		int Degree(VariableGroup const& vars) const override;
 	protected:
 		TrigOperator(){}
 	private:
diff --git a/core/src/function_tree/operators/arithmetic.cpp b/core/src/function_tree/operators/arithmetic.cpp
index 0fde38a..fea2398 100644
--- a/core/src/function_tree/operators/arithmetic.cpp
+++ b/core/src/function_tree/operators/arithmetic.cpp
@@ -964,10 +964,20 @@ std::shared_ptr<Node> PowerOperator::Differentiate(std::shared_ptr<Variable> con
 
 int PowerOperator::Degree(std::shared_ptr<Variable> const& v) const
 {
-	
-	auto base_deg = base_->Degree(v);
-	auto exp_deg = exponent_->Degree(v);
-	
+	return DegreeFromOperands(base_->Degree(v), exponent_->Degree(v));
+}
+
+int PowerOperator::Degree(VariableGroup const& vars) const
+{
+	return DegreeFromOperands(base_->Degree(vars), exponent_->Degree(vars));
+}
+
+int PowerOperator::DegreeFromOperands(int base_deg, int exp_deg) const
+{
+	// neither the base nor the exponent involves the variables in question, so this is a constant.
+	if (base_deg==0 && exp_deg==0)
+		return 0;
+
 	if (exp_deg==0)
 	{
 		auto exp_val = exponent_->Eval<dbl>();
@@ -1008,20 +1018,6 @@ int PowerOperator::Degree(std::shared_ptr<Variable> const& v) const
 	}
 }
 
-int PowerOperator::Degree(VariableGroup const& vars) const
-{
-	auto multideg = MultiDegree(vars);
-	auto deg = 0;
-	std::for_each(multideg.begin(),multideg.end(),[&](int n){
-					if (n < 0)
-						deg = -1;
-					else
-						deg += n;
-					});
-	return deg;
-}
-
-
 std::vector<int> PowerOperator::MultiDegree(VariableGroup const& vars) const
 {
 	std::vector<int> deg(vars.size(),0);
@@ -1048,6 +1044,10 @@ void PowerOperator::Homogenize(VariableGroup const& vars, std::shared_ptr<Variab
 
 bool PowerOperator::IsHomogeneous(std::shared_ptr<Variable> const& v) const
 {
+	// a constant is homogeneous, of degree 0.
+	if (base_->Degree(v)==0 && exponent_->Degree(v)==0)
+		return true;
+
 	// the only hope this has of being homogeneous, is that the degree of the exponent is 0 (it's constant), and that it's an integer
 	if (exponent_->Degree(v)==0)
 	{
@@ -1063,6 +1063,10 @@ bool PowerOperator::IsHomogeneous(std::shared_ptr<Variable> const& v) const
 
 bool PowerOperator::IsHomogeneous(VariableGroup const& v) const
 {
+	// a constant is homogeneous, of degree 0.
+	if (base_->Degree(v)==0 && exponent_->Degree(v)==0)
+		return true;
+
 	// the only hope this has of being homogeneous, is that the degree of the exponent is 0 (it's constant), and that it's an integer
 	if (exponent_->Degree(v)==0)
 	{
@@ -1173,6 +1177,15 @@ int IntegerPowerOperator::Degree(std::shared_ptr<Variable> const& v) const
 	
 }
 
+int IntegerPowerOperator::Degree(VariableGroup const& vars) const
+{
+	auto base_deg = operand_->Degree(vars);
+	if (base_deg<0)
+		return base_deg;
+	else
+		return exponent_*base_deg;
+}
+
 
 
 
@@ -1228,6 +1241,18 @@ int SqrtOperator::Degree(std::shared_ptr<Variable> const& v) const
 	}
 }
 
+int SqrtOperator::Degree(VariableGroup const& vars) const
+{
+	if (operand_->Degree(vars)==0)
+	{
+		return 0;
+	}
+	else
+	{
+		return -1;
+	}
+}
+
 
 dbl SqrtOperator::FreshEval_d(std::shared_ptr<Variable> const& diff_variable) const
 {
@@ -1309,6 +1334,18 @@ int ExpOperator::Degree(std::shared_ptr<Variable> const& v) const
 	}
 }
 
+int ExpOperator::Degree(VariableGroup const& vars) const
+{
+	if (operand_->Degree(vars)==0)
+	{
+		return 0;
+	}
+	else
+	{
+		return -1;
+	}
+}
+
 dbl ExpOperator::FreshEval_d(std::shared_ptr<Variable> const& diff_variable) const
 {
 	return exp(operand_->Eval<dbl>(diff_variable));
@@ -1384,6 +1421,18 @@ int LogOperator::Degree(std::shared_ptr<Variable> const& v) const
 	}
 }
 
+int LogOperator::Degree(VariableGroup const& vars) const
+{
+	if (operand_->Degree(vars)==0)
+	{
+		return 0;
+	}
+	else
+	{
+		return -1;
+	}
+}
+
 dbl LogOperator::FreshEval_d(std::shared_ptr<Variable> const& diff_variable) const
 {
 	return log(operand_->Eval<dbl>(diff_variable));
diff --git a/core/src/function_tree/operators/operator.cpp b/core/src/function_tree/operators/operator.cpp
index 1d49782..4e138ba 100644
--- a/core/src/function_tree/operators/operator.cpp
+++ b/core/src/function_tree/operators/operator.cpp
@@ -60,15 +60,7 @@ int UnaryOperator::Degree(std::shared_ptr<Variable> const& v) const
 
 int UnaryOperator::Degree(VariableGroup const& vars) const
 {
-	auto multideg = MultiDegree(vars);
-	auto deg = 0;
-	std::for_each(multideg.begin(),multideg.end(),[&](int n){
-					if (n < 0)
-						deg = n;
-					else
-						deg += n;
-					});
-	return deg;
+	return operand_->Degree(vars);
 }
 
 std::vector<int> UnaryOperator::MultiDegree(VariableGroup const& vars) const
diff --git a/core/src/function_tree/operators/trig.cpp b/core/src/function_tree/operators/trig.cpp
index 9dbe3de..520277f 100644
--- a/core/src/function_tree/operators/trig.cpp
+++ b/core/src/function_tree/operators/trig.cpp
@@ -42,6 +42,18 @@ namespace node{
 		}
 	}
 
+	int TrigOperator::Degree(VariableGroup const& vars) const
+	{
+		if (operand_->Degree(vars)==0)
+		{
+			return 0;
+		}
+		else
+		{
+			return -1;
+		}
+	}
+
 
 	unsigned SinOperator::EliminateZeros()
 	{
-- 
2.43.0


From 14fe9c947410ca8528b56b50481b673f81c0852a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:59 +0000
Subject: [PATCH 02/68] fix: multidegree of sums and products with
 non-polynomial operands or division

Negative entries (non-polynomial) were dropped by sums and mixed up by products, and
division counted as multiplication.
---
 core/src/function_tree/operators/arithmetic.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/core/src/function_tree/operators/arithmetic.cpp b/core/src/function_tree/operators/arithmetic.cpp
index fea2398..2c9919f 100644
--- a/core/src/function_tree/operators/arithmetic.cpp
+++ b/core/src/function_tree/operators/arithmetic.cpp
@@ -255,7 +255,11 @@ std::vector<int> SumOperator::MultiDegree(VariableGroup const& vars) const
 
 		for (auto iter = term_deg.begin(); iter!= term_deg.end(); ++iter)
 		{
-			*(deg.begin()+(iter-term_deg.begin())) = std::max(*(deg.begin()+(iter-term_deg.begin())), *iter);
+			auto& current = *(deg.begin()+(iter-term_deg.begin()));
+			if (current<0 || *iter<0)
+				current = -1; // a single non-polynomial term makes the sum non-polynomial
+			else
+				current = std::max(current, *iter);
 		}
 	}
 	return deg;
@@ -815,13 +819,17 @@ int MultOperator::Degree(VariableGroup const& vars) const
 std::vector<int> MultOperator::MultiDegree(VariableGroup const& vars) const
 {
 	std::vector<int> deg(vars.size(),0);
-	for (auto iter : operands_)
+	for (size_t ii = 0; ii < operands_.size(); ++ii)
 	{
-		auto term_deg = iter->MultiDegree(vars);
+		auto term_deg = operands_[ii]->MultiDegree(vars);
 
 		for (auto iter = term_deg.begin(); iter!= term_deg.end(); ++iter)
 		{
-			*(deg.begin()+(iter-term_deg.begin())) += *iter;
+			auto& current = *(deg.begin()+(iter-term_deg.begin()));
+			if (current<0 || *iter<0 || (*iter>0 && !mult_or_div_[ii]))
+				current = -1; // a non-polynomial factor, or division by something non-constant
+			else
+				current += *iter;
 		}
 	}
 	return deg;
-- 
2.43.0


From c348ea952c311a4787dcb2f84f8eb344909ddec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:59 +0000
Subject: [PATCH 03/68] fix: derivative of a power with non-constant exponent

The dependence of the exponent on the variable was ignored, so that the derivative of
x^y with respect to y was 0.
---
 core/src/function_tree/operators/arithmetic.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/src/function_tree/operators/arithmetic.cpp b/core/src/function_tree/operators/arithmetic.cpp
index 2c9919f..d870251 100644
--- a/core/src/function_tree/operators/arithmetic.cpp
+++ b/core/src/function_tree/operators/arithmetic.cpp
@@ -966,7 +966,15 @@ std::shared_ptr<Node> PowerOperator::Differentiate(std::shared_ptr<Variable> con
 	auto ret_mult = MultOperator::Make(base_->Differentiate(v));
 	ret_mult->AddOperand(exponent_);
 	ret_mult->AddOperand(PowerOperator::Make(base_, exp_minus_one));
-	return ret_mult;
+
+	if (exponent_->Degree(v)==0) // the exponent is constant
+		return ret_mult;
+
+	// the exponent varies, too
+	auto exp_term = MultOperator::Make(exponent_->Differentiate(v));
+	exp_term->AddOperand(LogOperator::Make(base_));
+	exp_term->AddOperand(PowerOperator::Make(base_, exponent_));
+	return SumOperator::Make(ret_mult, exp_term);
 }
 
 
-- 
2.43.0


From 4a8b87e1c45e6a83f87ce4388c14b4144f8c537a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:34 +0000
Subject: [PATCH 04/68] fix: homogenize expressions containing a sum more than
 once

A sum reachable by several routes, such as a subfunction used twice, was multiplied by
the homogenizing variable at every visit, so the result was not homogeneous.
---
 core/src/function_tree/operators/arithmetic.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/src/function_tree/operators/arithmetic.cpp b/core/src/function_tree/operators/arithmetic.cpp
index d870251..489b165 100644
--- a/core/src/function_tree/operators/arithmetic.cpp
+++ b/core/src/function_tree/operators/arithmetic.cpp
@@ -278,13 +278,19 @@ void SumOperator::Homogenize(VariableGroup const& vars, std::shared_ptr<Variable
 	
 	// then, homogenize this sum.
 	
+	// the homogenizing variable counts towards the degrees.  a node appearing several times in a tree (or a system)
+	// is visited once per appearance, and must be unchanged by the visits after the first.
+	auto vars_and_homvar = vars;
+	if (std::find(vars.begin(), vars.end(), homvar)==vars.end())
+		vars_and_homvar.push_back(homvar);
+
 	// compute the highest degree among all summands.
 	int maxdegree = 0;
 	std::vector<int> term_degrees;
 	// first homogenize each summand.
 	for (auto iter: operands_)
 	{
-		auto local_degree = iter->Degree(vars);
+		auto local_degree = iter->Degree(vars_and_homvar);
 		if (local_degree<0)
 			throw std::runtime_error("asking for homogenization on non-polynomial node");
 		// TODO: this throw would leave the tree in a partially homogenized state.  this is scary.
-- 
2.43.0


From 70261f94b6fe8e2232189d2d41eb11f80afc0951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:05 +0000
Subject: [PATCH 05/68] fix: time derivatives of straight line programs when
 differentiating with Jacobian nodes

---
 core/src/system/straight_line_program.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/system/straight_line_program.cpp b/core/src/system/straight_line_program.cpp
index 176ec8f..63608d8 100644
--- a/core/src/system/straight_line_program.cpp
+++ b/core/src/system/straight_line_program.cpp
@@ -807,9 +807,10 @@ namespace bertini{
 
 
 		// sometimes have time derivatives
+		std::vector<std::shared_ptr<node::Node>> ds_dt; // gotten once, because getting them may re-differentiate the system, producing new nodes
 		if (sys.HavePathVariable()) {
 			
-			auto ds_dt = sys.GetTimeDerivatives();  // a linear object, so can just run down the object
+			ds_dt = sys.GetTimeDerivatives();  // a linear object, so can just run down the object
 			slp_under_construction_.number_of_.TimeDeriv = ds_dt.size();
 			slp_under_construction_.output_locations_.TimeDeriv = next_available_complex_; // note the start of the block in memory.  the size was also recorded in the previous line.
 			for (auto n: ds_dt)
@@ -848,7 +849,6 @@ namespace bertini{
 		if (sys.HavePathVariable()) {
 			
 			// we need derivatives with respect to time only if the system has a path variable defined
-			auto ds_dt = sys.GetTimeDerivatives();  // a linear object, so can just run down the object
 			for (auto n: ds_dt)
 				n->Accept(*this);
 		}
-- 
2.43.0


From 0f69db0aace8fb839fec2fe95e320eac0b6c1666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:23 +0000
Subject: [PATCH 06/68] fix: straight line programs of functions using
 functions declared later, or listed twice

---
 core/src/system/straight_line_program.cpp | 32 +++++++++--------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/core/src/system/straight_line_program.cpp b/core/src/system/straight_line_program.cpp
index 63608d8..e977520 100644
--- a/core/src/system/straight_line_program.cpp
+++ b/core/src/system/straight_line_program.cpp
@@ -406,21 +406,12 @@ namespace bertini{
 		size_t location_entry = this->locations_encountered_nodes_[n];
 
 
-		size_t location_this_node;
-		if (this->locations_encountered_nodes_.find(f_as_ptr) == this->locations_encountered_nodes_.end()){
-			location_this_node = next_available_complex_;
-			locations_encountered_nodes_[f_as_ptr] = next_available_complex_++;
-		}
-		else
-			location_this_node = locations_encountered_nodes_[f_as_ptr];
-
+		// top-level functions and derivatives have a reserved location
+		auto top_level = locations_top_level_functions_and_derivatives_.find(f_as_ptr);
+		size_t location_this_node = top_level!=locations_top_level_functions_and_derivatives_.end() ? top_level->second : next_available_complex_++;
 
-		if (locations_top_level_functions_and_derivatives_.find(f_as_ptr)!= locations_top_level_functions_and_derivatives_.end()){ // top-level
-			slp_under_construction_.AddInstruction(Assign, location_entry, location_this_node);
-		}
-		else{ // not a top-level
-			slp_under_construction_.AddInstruction(Assign, location_entry, location_this_node);
-		}
+		locations_encountered_nodes_[f_as_ptr] = location_this_node;
+		slp_under_construction_.AddInstruction(Assign, location_entry, location_this_node);
 	}
 
 
@@ -772,8 +763,7 @@ namespace bertini{
 		slp_under_construction_.output_locations_.Functions = next_available_complex_;
 		for (auto f: sys.GetNaturalFunctions())
 		{
-			locations_top_level_functions_and_derivatives_[f] = next_available_complex_; // don't increment yet, we're listing it a few places. this is for an optimization that elides a copy for assignment.
-			locations_encountered_nodes_[f] = next_available_complex_++;
+			locations_top_level_functions_and_derivatives_[f] = next_available_complex_++; // not yet encountered: another function using this one has to cause its computation.
 
 			#ifndef BERTINI_DISABLE_FUNCTION_TREE_SANITY_CHECKS
 						try{
@@ -826,13 +816,17 @@ namespace bertini{
 
 		// now we're actually ready to start visiting using recursion, since we've recorded the locations of inputs and outputs.
 		
+		size_t location_function = slp_under_construction_.output_locations_.Functions;
 		for (auto& f: sys.GetNaturalFunctions())
 		{
 			f->shared_from_this();
-			f->Accept(*this);
+			if (locations_encountered_nodes_.find(f)==locations_encountered_nodes_.end())
+				f->Accept(*this);
 
-			// post visit function
-			/* code */
+			// a function listed more than once is computed into one of its locations; the others get copies
+			if (locations_encountered_nodes_[f]!=location_function)
+				slp_under_construction_.AddInstruction(Assign, locations_encountered_nodes_[f], location_function);
+			++location_function;
 		}
 
 
-- 
2.43.0


From 847f4bf14159a168f5322e5d29ffdfe21bd6e808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:46 +0000
Subject: [PATCH 07/68] fix: straight line programs confuse evaluation in
 double and in multiple precision

---
 .../bertini2/system/straight_line_program.hpp | 22 +++++++++++++------
 core/src/system/straight_line_program.cpp     |  5 +++--
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/core/include/bertini2/system/straight_line_program.hpp b/core/include/bertini2/system/straight_line_program.hpp
index a91ff43..87eb60b 100644
--- a/core/include/bertini2/system/straight_line_program.hpp
+++ b/core/include/bertini2/system/straight_line_program.hpp
@@ -355,7 +355,7 @@ namespace bertini {
 		 */
 		template<typename NumT>
 		void GetFuncValsInPlace(Vec<NumT> & result) const{
-			if (!is_evaluated_)
+			if (!IsEvaluated<NumT>())
 				this->EvalFunctions<NumT>();
 
 			auto& memory =  std::get<std::vector<NumT>>(memory_);
@@ -379,7 +379,7 @@ namespace bertini {
 
 		template<typename NumT>
 		void GetJacobianInPlace(Mat<NumT> & result) const{
-			if (!is_evaluated_)
+			if (!IsEvaluated<NumT>())
 				this->EvalJacobian<NumT>();
 
 			auto& memory =  std::get<std::vector<NumT>>(memory_);
@@ -405,7 +405,7 @@ namespace bertini {
 
 		template<typename NumT>
 		void GetTimeDerivInPlace(Vec<NumT> & result) const{
-			if (!is_evaluated_)
+			if (!IsEvaluated<NumT>())
 				this->EvalTimeDeriv<NumT>();
 
 			auto& memory =  std::get<std::vector<NumT>>(memory_);
@@ -520,7 +520,7 @@ namespace bertini {
 				//assign  to memory
 				memory[ii + input_locations_.Variables] = variable_values(ii);
 			}
-			is_evaluated_ = false;
+			IsEvaluated<NumT>() = false;
 		}
 
 		/**
@@ -549,7 +549,7 @@ namespace bertini {
 			auto& memory =  std::get<std::vector<ComplexT>>(memory_); // unpack for local reference
 
 			memory[input_locations_.Time] = time;
-			is_evaluated_ = false;
+			IsEvaluated<ComplexT>() = false;
 		}
 
 
@@ -592,6 +592,12 @@ namespace bertini {
 		}
 
 
+		// the two memories are evaluated separately
+		template<typename NumT>
+		bool& IsEvaluated() const{
+			return std::is_same<NumT,dbl_complex>::value ? is_evaluated_dbl_ : is_evaluated_mp_;
+		}
+
 		template<typename NumT>
 		void CopyNumbersIntoMemory() const;
 
@@ -609,7 +615,8 @@ namespace bertini {
 		std::vector<size_t> instructions_; //< The instructions.  The opcodes are  stored as size_t's, as well as the locations of operands and results.
 		std::vector< std::pair<Nd,size_t> > true_values_of_numbers_; //< the size_t is where in memory to downsample to.
 
-		mutable bool is_evaluated_ = false;
+		mutable bool is_evaluated_dbl_ = false; //< Are the results in the double precision memory up to date?
+		mutable bool is_evaluated_mp_ = false; //< Are the results in the multiple precision memory up to date?
 
 
 
@@ -632,7 +639,8 @@ namespace bertini {
 			ar & instructions_;
 			ar & true_values_of_numbers_;
 
-			ar & is_evaluated_;
+			ar & is_evaluated_dbl_;
+			ar & is_evaluated_mp_;
 		}
 
 	};
diff --git a/core/src/system/straight_line_program.cpp b/core/src/system/straight_line_program.cpp
index e977520..f44bfe2 100644
--- a/core/src/system/straight_line_program.cpp
+++ b/core/src/system/straight_line_program.cpp
@@ -85,6 +85,7 @@ namespace bertini{
 				Precision(n, new_precision);
 
 			this->precision_ = new_precision;
+			IsEvaluated<mpfr_complex>() = false;
 		}
 
 
@@ -216,7 +217,7 @@ namespace bertini{
 #endif
 
 
-		if (is_evaluated_)
+		if (IsEvaluated<NumT>())
 			return;
 
 		for (int ii = 0; ii<instructions_.size();/*the increment is done at end of loop depending on arity */) {
@@ -308,7 +309,7 @@ namespace bertini{
 			}
 		} // for loop around operations
 
-		is_evaluated_ = true;
+		IsEvaluated<NumT>() = true;
 	}
 
 	template void StraightLineProgram::Eval<dbl_complex>() const;
-- 
2.43.0


From 25a63481c43a59bcbe51165163a448101f2012d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:16 +0000
Subject: [PATCH 08/68] fix: function tree evaluation of a system continues
 into its straight line program

---
 core/include/bertini2/system/system.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/include/bertini2/system/system.hpp b/core/include/bertini2/system/system.hpp
index b19b93d..c5e8aea 100644
--- a/core/include/bertini2/system/system.hpp
+++ b/core/include/bertini2/system/system.hpp
@@ -286,6 +286,7 @@ namespace bertini {
 					for (auto iter=functions_.begin(); iter!=functions_.end(); iter++, counter++) {
 						(*iter)->EvalInPlace<T>(function_values(counter));
 					}
+					break;
 				}
 
 				case EvalMethod::SLP:
-- 
2.43.0


From 9adb18bcb40050c613934a7bb7763b1ff79051aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:16 +0000
Subject: [PATCH 09/68] fix: straight line programs read a variable where a
 parameter is meant

---
 core/include/bertini2/system/straight_line_program.hpp | 9 +++++++++
 core/include/bertini2/system/system.hpp                | 2 ++
 core/src/system/straight_line_program.cpp              | 3 ++-
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/core/include/bertini2/system/straight_line_program.hpp b/core/include/bertini2/system/straight_line_program.hpp
index 87eb60b..1d3e520 100644
--- a/core/include/bertini2/system/straight_line_program.hpp
+++ b/core/include/bertini2/system/straight_line_program.hpp
@@ -557,6 +557,15 @@ namespace bertini {
 
 
 
+		/**
+		\brief Take the values of parameters (variables which are not inputs of this SLP) from their nodes again.
+		*/
+		template<typename NumT>
+		void UpdateParameters() const{
+			CopyNumbersIntoMemory<NumT>();
+			IsEvaluated<NumT>() = false;
+		}
+
 		using IntT = int;  // this needs to co-vary on the stored type inside the node.  node should stop using mpz, it's slow.
 
 		private:
diff --git a/core/include/bertini2/system/system.hpp b/core/include/bertini2/system/system.hpp
index c5e8aea..6b8a528 100644
--- a/core/include/bertini2/system/system.hpp
+++ b/core/include/bertini2/system/system.hpp
@@ -1066,6 +1066,8 @@ namespace bertini {
 			for (auto iter=implicit_parameters_.begin(); iter!=implicit_parameters_.end(); iter++, counter++)
 				(*iter)->set_current_value(new_values(counter));
 
+			if (is_differentiated_ && eval_method_==EvalMethod::SLP)
+				slp_.UpdateParameters<T>();
 		}
 
 
diff --git a/core/src/system/straight_line_program.cpp b/core/src/system/straight_line_program.cpp
index f44bfe2..07f44a5 100644
--- a/core/src/system/straight_line_program.cpp
+++ b/core/src/system/straight_line_program.cpp
@@ -343,7 +343,8 @@ namespace bertini{
 
 
 	void SLPCompiler::Visit(node::Variable const& n){
-
+		// the variables of the system and the path variable are registered before any visit, so this is a parameter: its value is that of the node.
+		this->DealWithNumber(n);
 	}
 
 
-- 
2.43.0


From 5c54d8daaf9ca9db73d85c636cd72403d92433f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:07 +0000
Subject: [PATCH 10/68] fix: copying, moving and swapping systems loses the
 straight line program, the derivative method and more

---
 core/src/system/system.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/src/system/system.cpp b/core/src/system/system.cpp
index c5598d9..894fc9b 100644
--- a/core/src/system/system.cpp
+++ b/core/src/system/system.cpp
@@ -85,6 +85,10 @@ namespace bertini
 
 		swap(a.assume_uniform_precision_,b.assume_uniform_precision_);
 		swap(a.eval_method_,b.eval_method_);
+		swap(a.deriv_method_,b.deriv_method_);
+		swap(a.auto_simplify_,b.auto_simplify_);
+		swap(a.slp_,b.slp_);
+		swap(a.current_variable_values_,b.current_variable_values_);
 
 		swap(a.precision_,b.precision_);
 		swap(a.is_patched_,b.is_patched_);
@@ -113,6 +117,9 @@ namespace bertini
 
 		assume_uniform_precision_ = other.assume_uniform_precision_;
 		eval_method_ = other.eval_method_;
+		deriv_method_ = other.deriv_method_;
+		auto_simplify_ = other.auto_simplify_;
+		slp_ = other.slp_;
 
 		time_order_of_variable_groups_ = other.time_order_of_variable_groups_;
 
-- 
2.43.0


From 27e92291652fd7fddea6a1ac39d5e883a07b9bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:07 +0000
Subject: [PATCH 11/68] fix: adding and multiplying systems changes their
 operands, and keeps old derivatives

---
 core/src/system/system.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/core/src/system/system.cpp b/core/src/system/system.cpp
index 894fc9b..69af3d9 100644
--- a/core/src/system/system.cpp
+++ b/core/src/system/system.cpp
@@ -1326,9 +1326,13 @@ namespace bertini
 			if (this->patch_ != rhs.patch_)
 				throw std::runtime_error("System+=System cannot combine two patched systems whose patches differ.");
 
-		for (auto iter=functions_.begin(); iter!=functions_.end(); iter++)
-			(*iter)->SetRoot( (*(rhs.functions_.begin()+(iter-functions_.begin())))->EntryNode() + (*iter)->EntryNode());
+		// the function nodes may be shared with other systems and functions, so make new ones
+		auto summed_functions = functions_;
+		for (size_t ii=0; ii<functions_.size(); ++ii)
+			summed_functions[ii] = Function::Make(rhs.functions_[ii]->EntryNode() + functions_[ii]->EntryNode(), functions_[ii]->name());
+		swap(functions_, summed_functions);
 
+		is_differentiated_ = false;
 		return *this;
 	}
 
@@ -1340,10 +1344,11 @@ namespace bertini
 
 	System& System::operator*=(std::shared_ptr<node::Node> const& N)
 	{
-		for (auto iter=functions_.begin(); iter!=functions_.end(); iter++)
-		{
-			(*iter)->SetRoot( N * (*iter)->EntryNode());
-		}
+		// the function nodes may be shared with other systems and functions, so make new ones
+		for (auto& f : functions_)
+			f = Function::Make(N * f->EntryNode(), f->name());
+
+		is_differentiated_ = false;
 		return *this;
 	}
 
-- 
2.43.0


From 0578aab418924dc63faf2998cf233d9a7cab53a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:07 +0000
Subject: [PATCH 12/68] fix: reordering functions, changing evaluation or
 differentiation method, or variables, keeps old derivatives

---
 core/include/bertini2/system/system.hpp | 4 ++++
 core/src/system/system.cpp              | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/core/include/bertini2/system/system.hpp b/core/include/bertini2/system/system.hpp
index 6b8a528..7af13a2 100644
--- a/core/include/bertini2/system/system.hpp
+++ b/core/include/bertini2/system/system.hpp
@@ -1585,6 +1585,8 @@ namespace bertini {
 		 * */
 		void SetEvalMethod(EvalMethod method)
 		{
+			if (eval_method_!=method)
+				is_differentiated_ = false;
 			eval_method_ = method;
 		}
 
@@ -1604,6 +1606,8 @@ namespace bertini {
 		 * */
 		void SetDerivMethod(DerivMethod method)
 		{
+			if (deriv_method_!=method)
+				is_differentiated_ = false;
 			deriv_method_ = method;
 		}
 
diff --git a/core/src/system/system.cpp b/core/src/system/system.cpp
index 69af3d9..e007f38 100644
--- a/core/src/system/system.cpp
+++ b/core/src/system/system.cpp
@@ -870,6 +870,7 @@ namespace bertini
 
 		variable_ordering_ = other.variable_ordering_; 
 		have_ordering_ = other.have_ordering_;
+		is_differentiated_ = false;
 	}
 
 
@@ -1014,6 +1015,7 @@ namespace bertini
 		}
 
 		swap(functions_, re_ordered_functions);
+		is_differentiated_ = false;
 	}
 
 
@@ -1041,6 +1043,7 @@ namespace bertini
 		}
 
 		swap(functions_, re_ordered_functions);
+		is_differentiated_ = false;
 	}
 
 
-- 
2.43.0


From 769d576dbaa16404011cbb79fed687987fce912d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:07 +0000
Subject: [PATCH 13/68] fix: concatenating an unpatched and a patched system

---
 core/src/system/system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/system/system.cpp b/core/src/system/system.cpp
index e007f38..6fd3bff 100644
--- a/core/src/system/system.cpp
+++ b/core/src/system/system.cpp
@@ -1383,7 +1383,7 @@ namespace bertini
 				throw std::runtime_error("concatenating systems with incompatible patches");
 
 		if (sys2.IsPatched() && !sys1.IsPatched())
-			sys1.CopyPatches(sys1);
+			sys1.CopyPatches(sys2);
 		// the other cases are automatically covered.  sys1 already patched, or neither patched.
 
 		for (unsigned ii(0); ii<sys2.NumNaturalFunctions(); ++ii)
-- 
2.43.0


From 796914be70c4377d391a7857a467d9fed2fb1f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:07 +0000
Subject: [PATCH 14/68] fix: number of functions of a system whose patch is no
 longer in effect

---
 core/include/bertini2/system/system.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/bertini2/system/system.hpp b/core/include/bertini2/system/system.hpp
index 7af13a2..b113927 100644
--- a/core/include/bertini2/system/system.hpp
+++ b/core/include/bertini2/system/system.hpp
@@ -872,7 +872,7 @@ namespace bertini {
 		*/
 		size_t NumPatches() const
 		{
-			return patch_.NumVariableGroups();
+			return IsPatched() ? patch_.NumVariableGroups() : 0;
 		}
 
 		/**
-- 
2.43.0


From 5eabda41b2e257bcf2cbed311e0b9b25ac63c5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:07 +0000
Subject: [PATCH 15/68] fix: adding a patched and an unpatched system

---
 core/src/system/system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/system/system.cpp b/core/src/system/system.cpp
index 6fd3bff..a953979 100644
--- a/core/src/system/system.cpp
+++ b/core/src/system/system.cpp
@@ -1304,7 +1304,7 @@ namespace bertini
 
 	System& System::operator+=(System const& rhs)
 	{
-		if (this->NumTotalFunctions()!=rhs.NumTotalFunctions())
+		if (this->NumNaturalFunctions()!=rhs.NumNaturalFunctions())
 			throw std::runtime_error("cannot add two Systems with differing numbers of functions");
 
 		if (this->NumVariables()!=rhs.NumVariables())
-- 
2.43.0


From 69f683435626bb8b75881edb4cdd34e4f73421c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:06 +0000
Subject: [PATCH 16/68] fix: serialization of differentials

---
 .../function_tree/symbols/differential.hpp        | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/core/include/bertini2/function_tree/symbols/differential.hpp b/core/include/bertini2/function_tree/symbols/differential.hpp
index 1406f27..335dc50 100644
--- a/core/include/bertini2/function_tree/symbols/differential.hpp
+++ b/core/include/bertini2/function_tree/symbols/differential.hpp
@@ -146,22 +146,11 @@ namespace node{
 
 		friend class boost::serialization::access;
 		
-		template<class Archive>
-		void save(Archive & ar, const unsigned int version) const
-		{
+		template <typename Archive>
+		void serialize(Archive& ar, const unsigned version) {
 			ar & boost::serialization::base_object<NamedSymbol>(*this);
 			ar & differential_variable_;
-			// ar & const_cast<std::shared_ptr<const Variable> >(differential_variable_);
 		}
-		
-		template<class Archive>
-		void load(Archive & ar, const unsigned int version)
-		{
-			ar & boost::serialization::base_object<NamedSymbol>(*this);
-			ar & std::const_pointer_cast<Variable>(differential_variable_);
-		}
-		
-		// BOOST_SERIALIZATION_SPLIT_MEMBER()
 
 	};
 
-- 
2.43.0


From a05733d3316654d5b8b0b672829cbc1f0c4c8fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:06 +0000
Subject: [PATCH 17/68] fix: rows of the Jacobian of a patched system with
 several variable groups are partly uninitialized

---
 core/include/bertini2/system/patch.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/include/bertini2/system/patch.hpp b/core/include/bertini2/system/patch.hpp
index a98fb82..517c2a9 100644
--- a/core/include/bertini2/system/patch.hpp
+++ b/core/include/bertini2/system/patch.hpp
@@ -371,8 +371,11 @@ namespace bertini {
 			unsigned offset(jacobian.rows() - NumVariableGroups()); // by precondition this number is at least 0.  the precondition is ensured by the public wrapper
 			unsigned counter(0);
 			for (unsigned ii = 0; ii < NumVariableGroups(); ++ii)
+			{
+				jacobian.row(ii+offset).setZero(); // each patch depends only on the variables of its group
 				for (unsigned jj=0; jj<variable_group_sizes_[ii]; ++jj)
 					jacobian(ii+offset,counter++) = coefficients[ii](jj);
+			}
 		}
 
 		/**
-- 
2.43.0


From ddb10e2cf49db1df4592cd0817e33e0137496287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:10 +0000
Subject: [PATCH 18/68] fix: dehomogenizing points of systems with several
 variable groups of different sizes

---
 core/include/bertini2/system/system.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/include/bertini2/system/system.hpp b/core/include/bertini2/system/system.hpp
index b113927..c37ca4c 100644
--- a/core/include/bertini2/system/system.hpp
+++ b/core/include/bertini2/system/system.hpp
@@ -1707,19 +1707,20 @@ namespace bertini {
 							auto h = x(hom_index++);
 							for (unsigned ii = 0; ii < variable_groups_[affine_group_counter].size(); ++ii)
 								x_dehomogenized(dehom_index++) = x(hom_index++) / h;
-							affine_group_counter++;
 						}
 						else
 						{
 							for (unsigned ii = 0; ii < variable_groups_[affine_group_counter].size(); ++ii)
 								x_dehomogenized(dehom_index++) = x(hom_index++);
 						}
+						affine_group_counter++;
 						break;
 					}
 					case VariableGroupType::Homogeneous:
 					{
 						for (unsigned ii = 0; ii < hom_variable_groups_[hom_group_counter].size(); ++ii)
 							x_dehomogenized(dehom_index++) = x(hom_index++);
+						hom_group_counter++;
 						break;
 					}
 					case VariableGroupType::Ungrouped:
-- 
2.43.0


From 41a769cf413d29d4575a41fa12843271d3446764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:10 +0000
Subject: [PATCH 19/68] fix: copying a patch loses its working precision

---
 core/include/bertini2/system/patch.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/include/bertini2/system/patch.hpp b/core/include/bertini2/system/patch.hpp
index 517c2a9..56091ce 100644
--- a/core/include/bertini2/system/patch.hpp
+++ b/core/include/bertini2/system/patch.hpp
@@ -102,7 +102,7 @@ namespace bertini {
 		Patch(Patch const& other)
 		{	
 			variable_group_sizes_ = other.variable_group_sizes_;
-			precision_ = DefaultPrecision();
+			precision_ = other.precision_;
 
 			// a little shorthand unpacking the tuple
 			std::vector<Vec<mpfr_complex> >& coefficients_mpfr = std::get<std::vector<Vec<mpfr_complex> > >(this->coefficients_working_);
@@ -128,6 +128,7 @@ namespace bertini {
 
 					coefficients_dbl[ii](jj) = dbl(coefficients_highest_precision_[ii](jj));
 					coefficients_mpfr[ii](jj) = mpfr_complex(coefficients_highest_precision_[ii](jj));
+					coefficients_mpfr[ii](jj).precision(precision_);
 
 					assert(coefficients_highest_precision_[ii](jj) == other.coefficients_highest_precision_[ii](jj));
 				}
-- 
2.43.0


From 3d16998c4fef0a23e2eda2af2be7ca87bdcf538e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:16 +0000
Subject: [PATCH 20/68] fix: multiplying a start system recurses forever

---
 core/src/system/start/mhom.cpp         | 2 +-
 core/src/system/start/total_degree.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/system/start/mhom.cpp b/core/src/system/start/mhom.cpp
index e237a43..51c105d 100644
--- a/core/src/system/start/mhom.cpp
+++ b/core/src/system/start/mhom.cpp
@@ -101,7 +101,7 @@ namespace bertini
 		
 		MHomogeneous& MHomogeneous::operator*=(Nd const& n)
 		{
-			*this *= n;
+			System::operator*=(n);
 			return *this;
 		}
 		
diff --git a/core/src/system/start/total_degree.cpp b/core/src/system/start/total_degree.cpp
index 04d7f48..ddda8cc 100644
--- a/core/src/system/start/total_degree.cpp
+++ b/core/src/system/start/total_degree.cpp
@@ -52,7 +52,7 @@ namespace bertini {
 		
 		TotalDegree& TotalDegree::operator*=(Nd const& n)
 		{
-			*this *= n;
+			System::operator*=(n);
 			return *this;
 		}
 		
-- 
2.43.0


From 0185c986aa33f6a9960c41a35dddd2c231423392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:52 +0000
Subject: [PATCH 21/68] fix: changing the precision of linear products

---
 .../function_tree/symbols/linear_product.hpp  | 28 +++++++++++++------
 core/src/function_tree/linear_product.cpp     |  6 ++--
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/core/include/bertini2/function_tree/symbols/linear_product.hpp b/core/include/bertini2/function_tree/symbols/linear_product.hpp
index 43a0721..6296358 100644
--- a/core/include/bertini2/function_tree/symbols/linear_product.hpp
+++ b/core/include/bertini2/function_tree/symbols/linear_product.hpp
@@ -185,6 +185,7 @@ namespace  bertini {
 				
 				
 				is_rational_coeffs_ = false;
+				coeffs_highest_precision_ = coeffs_mpfr_ref;
 				
 			}
 			
@@ -386,8 +387,7 @@ namespace  bertini {
 			*/
 			void GetMPFRCoeffs(Mat<mpfr_complex>& coeffs) const
 			{
-				auto& coeffs_mpfr_ref = std::get<Mat<mpfr_complex>>(coeffs_);
-				coeffs = coeffs_mpfr_ref;
+				coeffs = coeffs_highest_precision_;
 			}
 			
 			/**
@@ -568,7 +568,9 @@ namespace  bertini {
 			
 			Mat<mpq_rational> coeffs_rat_imag_;   ///< Same as coeffs_rat_real_ but for imaginary portion of the coefficients.
 			
-			std::tuple< Mat<dbl>, Mat<mpfr_complex> > coeffs_;   ///< Matrix of coefficients that define the linear product.  Each row corresponds to a factor in the product, columns correspond to the terms in each factor with the final column being the constant coefficient.  This is a tuple with one matrix for each data type.
+			Mat<mpfr_complex> coeffs_highest_precision_;   ///< The coefficients as given, if they are not rational.
+			
+			mutable std::tuple< Mat<dbl>, Mat<mpfr_complex> > coeffs_;   ///< Matrix of coefficients that define the linear product.  Each row corresponds to a factor in the product, columns correspond to the terms in each factor with the final column being the constant coefficient.  This is a tuple with one matrix for each data type.
 			
 			VariableGroup variables_; ///< Variables to be used in each linear factor.  Does not have to correspond directly to a variable group from the system.
 			
@@ -666,10 +668,12 @@ namespace  bertini {
 					for (int jj = 0; jj < num_variables_+1; ++jj)
 					{
 						coeffs_dbl_ref(ii,jj) = static_cast<dbl>(coeffs_mpfr_ref(ii,jj));
+						coeffs_mpfr_ref(ii,jj).precision(DefaultPrecision());
 					}
 				}
 				
 				is_rational_coeffs_ = false;
+				coeffs_highest_precision_ = coeffs;
 				
 				if(is_hom_vars)
 				{
@@ -740,14 +744,16 @@ namespace  bertini {
 					v.precision(prec);
 				}
 				
-				Mat<mpfr_complex> coeffs_ref = std::get<Mat<mpfr_complex>>(coeffs_);
+				Mat<mpfr_complex>& coeffs_ref = std::get<Mat<mpfr_complex>>(coeffs_);
 				for(int ii = 0; ii < coeffs_ref.rows(); ++ii)
 				{
 					for(int jj = 0; jj < coeffs_ref.cols(); ++jj)
 					{
+						if (is_rational_coeffs_)
+							coeffs_ref(ii,jj) = mpfr_complex(mpfr_float(coeffs_rat_real_(ii,jj),prec), mpfr_float(coeffs_rat_imag_(ii,jj),prec));
+						else
+							coeffs_ref(ii,jj) = coeffs_highest_precision_(ii,jj);
 						coeffs_ref(ii,jj).precision(prec);
-						coeffs_ref(ii,jj).real( static_cast<mpfr_float>(coeffs_rat_real_(ii,jj)) );
-						coeffs_ref(ii,jj).imag( static_cast<mpfr_float>(coeffs_rat_imag_(ii,jj)) );
 					}
 				}
 			}
@@ -1068,7 +1074,9 @@ namespace  bertini {
 			
 			Mat<mpq_rational> coeffs_rat_imag_;   ///< Same as coeffs_rat_real_ but for imaginary portion of the coefficients.
 			
-			std::tuple< Mat<dbl>, Mat<mpfr_complex> > coeffs_;   ///< Matrix of coefficients that define the linear product.  Each row corresponds to a factor in the product, columns correspond to the terms in each factor with the final column being the constant coefficient.  This is a tuple with one matrix for each data type.
+			Mat<mpfr_complex> coeffs_highest_precision_;   ///< The coefficients as given, if they are not rational.
+			
+			mutable std::tuple< Mat<dbl>, Mat<mpfr_complex> > coeffs_;   ///< Matrix of coefficients that define the linear product.  Each row corresponds to a factor in the product, columns correspond to the terms in each factor with the final column being the constant coefficient.  This is a tuple with one matrix for each data type.
 			
 			VariableGroup variables_; ///< Differentials of variables used in the linear.
 			
@@ -1101,11 +1109,15 @@ namespace  bertini {
 			
 			void PrecisionChangeSpecific(unsigned prec) const
 			{
-				Mat<mpfr_complex> coeffs_ref = std::get<Mat<mpfr_complex>>(coeffs_);
+				Mat<mpfr_complex>& coeffs_ref = std::get<Mat<mpfr_complex>>(coeffs_);
 				for(int ii = 0; ii < coeffs_ref.rows(); ++ii)
 				{
 					for(int jj = 0; jj < coeffs_ref.cols(); ++jj)
 					{
+						if (coeffs_rat_real_.size()>0)
+							coeffs_ref(ii,jj) = mpfr_complex(mpfr_float(coeffs_rat_real_(ii,jj),prec), mpfr_float(coeffs_rat_imag_(ii,jj),prec));
+						else
+							coeffs_ref(ii,jj) = coeffs_highest_precision_(ii,jj);
 						coeffs_ref(ii,jj).precision(prec);
 					}
 				}
diff --git a/core/src/function_tree/linear_product.cpp b/core/src/function_tree/linear_product.cpp
index 233a208..6cdd27b 100644
--- a/core/src/function_tree/linear_product.cpp
+++ b/core/src/function_tree/linear_product.cpp
@@ -335,7 +335,7 @@ namespace  bertini {
 			else
 			{
 				Mat<mpfr_complex> temp_mpfr(1,num_variables_+1);
-				auto& coeffs_mp_ref = std::get<Mat<mpfr_complex>>(coeffs_);
+				auto& coeffs_mp_ref = coeffs_highest_precision_;
 				for(int jj = 0; jj < num_variables_+1; ++jj)
 				{
 					temp_mpfr(0,jj) = coeffs_mp_ref(index,jj);
@@ -371,7 +371,7 @@ namespace  bertini {
 			else
 			{
 				Mat<mpfr_complex> temp_mpfr(indices.size(),num_variables_+1);
-				auto& coeffs_mp_ref = std::get<Mat<mpfr_complex>>(coeffs_);
+				auto& coeffs_mp_ref = coeffs_highest_precision_;
 				for(int ii = 0; ii < indices.size(); ++ii)
 				{
 					for(int jj = 0; jj < num_variables_+1; ++jj)
@@ -465,10 +465,12 @@ namespace  bertini {
 			else
 			{
 				linear->GetMPFRCoeffs(coeffs_mpfr_ref);
+				coeffs_highest_precision_ = coeffs_mpfr_ref;
 				
 				for(int jj = 0; jj < num_variables_+1; ++jj)
 				{
 					coeffs_dbl_ref(jj) = static_cast<dbl>(coeffs_mpfr_ref(jj));
+					coeffs_mpfr_ref(jj).precision(DefaultPrecision());
 				}
 				
 			}
-- 
2.43.0


From 62e3dadaeefdbde8c6b7c77eb869a9d9a2178fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:52 +0000
Subject: [PATCH 22/68] fix: derivatives and degrees of linear products

---
 .../function_tree/symbols/linear_product.hpp  | 10 ++++-
 core/src/function_tree/linear_product.cpp     | 38 +++++++++++++++++--
 2 files changed, 43 insertions(+), 5 deletions(-)

diff --git a/core/include/bertini2/function_tree/symbols/linear_product.hpp b/core/include/bertini2/function_tree/symbols/linear_product.hpp
index 6296358..b4e2ae7 100644
--- a/core/include/bertini2/function_tree/symbols/linear_product.hpp
+++ b/core/include/bertini2/function_tree/symbols/linear_product.hpp
@@ -226,6 +226,7 @@ namespace  bertini {
 				{
 					v->Reset();
 				}
+				hom_variable_->Reset();
 			};
 			
 			
@@ -241,6 +242,11 @@ namespace  bertini {
 			 Return SumOperator whose children are derivatives of children_
 			 */
 			std::shared_ptr<Node> Differentiate(std::shared_ptr<Variable> const& v = nullptr) const override    ;
+
+			/**
+			 \brief Get the linear product written out in terms of sums and products of numbers and variables.
+			*/
+			std::shared_ptr<Node> AsProductOfSums() const;
 	
 			
 			
@@ -991,7 +997,7 @@ namespace  bertini {
 				if(diff_variable == hom_variable_)
 				{
 					auto& coeff_ref = std::get<Mat<dbl>>(coeffs_);
-					evaluation_value = coeff_ref(0,variables_.size()-1);
+					evaluation_value = coeff_ref(0,num_variables_);
 					return;
 				}
 				
@@ -1038,7 +1044,7 @@ namespace  bertini {
 				if(diff_variable == hom_variable_)
 				{
 					auto& coeff_ref = std::get<Mat<mpfr_complex>>(coeffs_);
-					evaluation_value = coeff_ref(0,variables_.size()-1);
+					evaluation_value = coeff_ref(0,num_variables_);
 					return;
 				}
 				
diff --git a/core/src/function_tree/linear_product.cpp b/core/src/function_tree/linear_product.cpp
index 6cdd27b..5ec39ba 100644
--- a/core/src/function_tree/linear_product.cpp
+++ b/core/src/function_tree/linear_product.cpp
@@ -57,8 +57,40 @@ namespace  bertini {
 		//
 		////////////////////////////////////////
 		
+		std::shared_ptr<Node> LinearProduct::AsProductOfSums() const
+		{
+			auto coefficient = [this](size_t factor, size_t column) -> std::shared_ptr<Node>
+			{
+				if (is_rational_coeffs_)
+					return Rational::Make(coeffs_rat_real_(factor,column), coeffs_rat_imag_(factor,column));
+				else
+					return Float::Make(coeffs_highest_precision_(factor,column));
+			};
+
+			std::shared_ptr<MultOperator> product;
+			for (size_t ii = 0; ii < num_factors_; ++ii)
+			{
+				std::shared_ptr<SumOperator> linear = SumOperator::Make(MultOperator::Make(coefficient(ii,0), variables_[0]), true);
+				for (size_t jj = 1; jj < num_variables_; ++jj)
+					linear->AddOperand(MultOperator::Make(coefficient(ii,jj), variables_[jj]), true);
+				if (!is_hom_vars_)
+					linear->AddOperand(MultOperator::Make(coefficient(ii,num_variables_), hom_variable_), true);
+
+				if (product)
+					product->AddOperand(linear);
+				else
+					product = MultOperator::Make(linear);
+			}
+			return product;
+		}
+
+
+
 		std::shared_ptr<Node> LinearProduct::Differentiate(std::shared_ptr<Variable> const& v) const
 		{
+			if (v != nullptr)
+				return AsProductOfSums()->Differentiate(v);
+
 			std::shared_ptr<SumOperator> ret_sum;
 			std::vector<size_t> indices;  //Those factors that are not differentiated in one particular term of the differentiated result.
             
@@ -104,7 +136,7 @@ namespace  bertini {
 			int deg = 0;
 			
 			// If v is part of the linear product
-			if(std::find(variables_.begin(), variables_.end(), v) != std::end(variables_))
+			if(v == nullptr || v == hom_variable_ || std::find(variables_.begin(), variables_.end(), v) != std::end(variables_))
 			{
 				deg = num_factors_;
 			}
@@ -123,7 +155,7 @@ namespace  bertini {
 			for (auto v = vars.begin(); v != vars.end(); ++v)
 			{
 				// if v is a part of the linear product
-				if(std::find(variables_.begin(), variables_.end(), *v) != std::end(variables_))
+				if(*v == hom_variable_ || std::find(variables_.begin(), variables_.end(), *v) != std::end(variables_))
 				{
 					deg = num_factors_;
 					break;
@@ -143,7 +175,7 @@ namespace  bertini {
 			for (auto v = vars.begin(); v != vars.end(); ++v)
 			{
 				// If v is part of the linear product
-				if(std::find(variables_.begin(), variables_.end(), *v) != std::end(variables_))
+				if(*v == hom_variable_ || std::find(variables_.begin(), variables_.end(), *v) != std::end(variables_))
 				{
 					*(degs.begin()+(v-vars.begin())) = num_factors_;
 				}
-- 
2.43.0


From 3f30dc1793e426b0aaafd3098d16514cced1cf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:22 +0000
Subject: [PATCH 23/68] fix: straight line programs of linear products

---
 core/include/bertini2/system/straight_line_program.hpp | 6 ++++--
 core/src/system/straight_line_program.cpp              | 9 +++++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/core/include/bertini2/system/straight_line_program.hpp b/core/include/bertini2/system/straight_line_program.hpp
index 1d3e520..e1968cf 100644
--- a/core/include/bertini2/system/straight_line_program.hpp
+++ b/core/include/bertini2/system/straight_line_program.hpp
@@ -668,6 +668,7 @@ namespace bertini {
 			public Visitor<node::Function>,
 			public Visitor<node::Jacobian>,
 			public Visitor<node::Differential>,
+			public Visitor<node::LinearProduct>,
 
 			// arithmetic
 			public Visitor<node::SumOperator>,
@@ -690,7 +691,7 @@ namespace bertini {
 			public Visitor<node::special_number::Pi>,
 			public Visitor<node::special_number::E>
 
-			// also missing -- linears and difflinears.
+			// also missing -- difflinears.
 
 			// these abstract base types left out,
 
@@ -719,6 +720,7 @@ namespace bertini {
 			virtual void Visit(node::Function const& n);
 			virtual void Visit(node::Jacobian const& n);
 			virtual void Visit(node::Differential const& n);
+			virtual void Visit(node::LinearProduct const& n);
 
 			// arithmetic
 			virtual void Visit(node::SumOperator const& n);
@@ -741,7 +743,7 @@ namespace bertini {
 
 			virtual void Visit(node::special_number::Pi const& n);
 			virtual void Visit(node::special_number::E const& n);
-			// missing -- linear and difflinear
+			// missing -- difflinear
 		private:
 
 
diff --git a/core/src/system/straight_line_program.cpp b/core/src/system/straight_line_program.cpp
index 07f44a5..1690ba2 100644
--- a/core/src/system/straight_line_program.cpp
+++ b/core/src/system/straight_line_program.cpp
@@ -394,6 +394,15 @@ namespace bertini{
 	}
 
 
+	void SLPCompiler::Visit(node::LinearProduct const& n){
+		auto as_ptr = std::dynamic_pointer_cast<node::LinearProduct const>(n.shared_from_this());
+
+		auto written_out = n.AsProductOfSums();
+		written_out->Accept(*this);
+		this->locations_encountered_nodes_[as_ptr] = this->locations_encountered_nodes_[written_out];
+	}
+
+
 
 
 
-- 
2.43.0


From e1980c0526a189ba7bd55f116638b3fc10319731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:17 +0000
Subject: [PATCH 24/68] fix: numbers of straight line programs which do not
 occur in the functions keep their old precision

---
 core/src/system/straight_line_program.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/system/straight_line_program.cpp b/core/src/system/straight_line_program.cpp
index 1690ba2..1bce31f 100644
--- a/core/src/system/straight_line_program.cpp
+++ b/core/src/system/straight_line_program.cpp
@@ -78,6 +78,7 @@ namespace bertini{
 				auto& n = std::get<Nd>(p);
 				auto& loc = std::get<size_t>(p);
 
+				n->precision(new_precision); // numbers of the program need not occur in the functions of the system
 				mem[loc] = n->Eval<mpfr_complex>();
 			}
 
-- 
2.43.0


From cc67a3912cc261d7cb1485a5c9cc5ac5ea5f9835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:17 +0000
Subject: [PATCH 25/68] fix: start points of multihomogeneous start systems of
 patched targets, with homogeneous groups, or with groups of one variable

---
 core/src/system/start/mhom.cpp | 69 ++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 33 deletions(-)

diff --git a/core/src/system/start/mhom.cpp b/core/src/system/start/mhom.cpp
index 51c105d..223fc0a 100644
--- a/core/src/system/start/mhom.cpp
+++ b/core/src/system/start/mhom.cpp
@@ -156,7 +156,7 @@ namespace bertini
 
 			int col_count = 0;
 			int outer_loop = 0;
-			size_t var_count = 0;
+			const auto vars = target_system.Variables();
 			std::vector<int> zero_column_vector(target_system.Degrees(*(var_groups_.begin())).size(), 0);
 
 			for(std::vector<VariableGroup>::iterator it = var_groups_.begin(); it != var_groups_.end(); ++it)
@@ -167,8 +167,7 @@ namespace bertini
 				std::vector<size_t> temp_v;
 				for(int ii = 0; ii < (*it).size(); ++ii)
 				{
-					temp_v.push_back(var_count);
-					var_count++;
+					temp_v.push_back(std::find(vars.begin(), vars.end(), (*it)[ii]) - vars.begin());
 				}
 				variable_cols_.push_back(temp_v);
 				
@@ -225,15 +224,10 @@ namespace bertini
 			Vec<int> current_partition = -1*Vec<int>::Ones(target_system.NumNaturalFunctions());
 			Vec<int> variable_group_counter = Vec<int>::Zero(target_system.NumTotalVariableGroups());
 
-			auto size_of_each_var_gp = target_system.VariableGroupSizes(); //K
-			
-
-
-
-
+			// the dimension of the space of each variable group.  the order is that of the degree matrix: homogeneous groups are first.
 			for(int ii = 0; ii < target_system.NumTotalVariableGroups(); ++ii)
 			{
-				variable_group_counter[ii] = size_of_each_var_gp[ii];
+				variable_group_counter[ii] = ii < target_system.NumHomVariableGroups() ? var_groups_[ii].size()-1 : var_groups_[ii].size();
 			}			    
 			// std::cout << "variable_group_counter is " << std::endl;
 			// std::cout << variable_group_counter << std::endl;		
@@ -383,40 +377,49 @@ namespace bertini
 			
 			
 			
-			// Create a linear system to solve.
-			size_t num_grouped_variables = NumNaturalVariables() - NumUngroupedVariables();
-			Mat<T> A(partition.size(), num_grouped_variables);
-			Vec<T> v(num_grouped_variables);
-			Vec<T> b(partition.size());
+			// Create a linear system to solve: one row for each function, and one for each patch.
+			const auto vars = Variables();
+			const auto num_functions = partition.size();
+			const auto num_patches = IsPatched() ? NumPatches() : 0;
+			Mat<T> A(num_functions + num_patches, vars.size());
+			A.setZero();
+			Vec<T> b(num_functions + num_patches);
 			
-			for(int ii = 0; ii < partition.size(); ++ii)
+			for(int ii = 0; ii < num_functions; ++ii)
 			{
-				v.setZero();
-				std::vector<size_t> cols = variable_cols_[partition[ii]];
-				auto coeff = linprod_matrix_(ii,partition[ii])->GetCoeffs<T>(subscript[ii]);
+				std::vector<size_t> const& cols = variable_cols_[partition[ii]];
+				auto linprod = linprod_matrix_(ii,partition[ii]);
+				auto coeff = linprod->GetCoeffs<T>(subscript[ii]);
 				for(int jj = 0; jj < cols.size(); ++jj)
 				{
-					v(cols[jj]) = coeff[jj];
+					A(ii,cols[jj]) = coeff[jj];
 				}
-				
-				A.row(ii) = v;
-				b(ii) = -coeff[cols.size()];
+
+				// the constant is the coefficient of the homogenizing variable, if there is one
+				std::shared_ptr<node::Node> hom_var;
+				linprod->GetHomVariable(hom_var);
+				auto hom_col = std::find(vars.begin(), vars.end(), hom_var);
+				if (hom_col != vars.end())
+				{
+					A(ii,hom_col-vars.begin()) = coeff[cols.size()];
+					b(ii) = T(0);
+				}
+				else
+					b(ii) = -coeff[cols.size()];
+			}
+
+			if (IsPatched())
+			{
+				A.bottomRows(num_patches) = GetPatch().Jacobian(Vec<T>(Vec<T>::Zero(vars.size())));
+				for (int ii = 0; ii < num_patches; ++ii)
+					b(num_functions+ii) = T(1);
 			}
 			
 			start_point = A.partialPivLu().solve(b);
-			
-			
-			var_groups_[0][0]->set_current_value(start_point(0));
-			var_groups_[0][1]->set_current_value(start_point(1));
-			
-			std::shared_ptr<node::Node> f = Function(0);
-			// !!! superfluous line?
-			
-			
-
 		}
 		
 		
+
 		Vec<dbl> MHomogeneous::GenerateStartPoint(dbl,unsigned long long index) const
 		{
 			Vec<dbl> start_point(NumVariables());
-- 
2.43.0


From 3524e507c645b3a93c854748239ba2eaedcce429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:02 +0000
Subject: [PATCH 26/68] fix: changing the precision of linear slices, and their
 precision when made

---
 core/include/bertini2/system/slice.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/include/bertini2/system/slice.hpp b/core/include/bertini2/system/slice.hpp
index 38a26b2..cdd88af 100644
--- a/core/include/bertini2/system/slice.hpp
+++ b/core/include/bertini2/system/slice.hpp
@@ -166,16 +166,16 @@ namespace bertini {
 				{
 					for (unsigned jj=0; jj<NumVariables(); ++jj)
 					{
-						coefficients_mpfr(ii,jj).precision(new_precision);
 						if (new_precision>precision_)
 							coefficients_mpfr(ii,jj) = coefficients_highest_precision_(ii,jj);
+						coefficients_mpfr(ii,jj).precision(new_precision);
 					}
 					
 					if (!is_homogeneous_)
 					{
-						constants_mpfr(ii).precision(new_precision);
 						if (new_precision>precision_)
 							constants_mpfr(ii) = constants_highest_precision_(ii);
+						constants_mpfr(ii).precision(new_precision);
 					}
 				}
 			}
@@ -285,6 +285,7 @@ namespace bertini {
 				{
 					std::get<Mat<dbl> >(s.coefficients_working_)(ii,jj) = dbl(s.coefficients_highest_precision_(ii,jj));
 					std::get<Mat<mpfr_complex> >(s.coefficients_working_)(ii,jj) = s.coefficients_highest_precision_(ii,jj);
+					std::get<Mat<mpfr_complex> >(s.coefficients_working_)(ii,jj).precision(s.precision_);
 				}
 
 			if (!homogeneous)
@@ -298,6 +299,7 @@ namespace bertini {
 					gen(s.constants_highest_precision_(ii), MaxPrecisionAllowed());
 					std::get<Vec<dbl> >(s.constants_working_)(ii) = dbl(s.constants_highest_precision_(ii));
 					std::get<Vec<mpfr_complex> >(s.constants_working_)(ii) = s.constants_highest_precision_(ii);
+					std::get<Vec<mpfr_complex> >(s.constants_working_)(ii).precision(s.precision_);
 				}
 			}
 
-- 
2.43.0


From f07dc75f91ce62a5508a1861be1c510c43062227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:02 +0000
Subject: [PATCH 27/68] fix: making homogeneous linear slices fails an
 assertion

---
 core/include/bertini2/system/slice.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/bertini2/system/slice.hpp b/core/include/bertini2/system/slice.hpp
index cdd88af..c991cbb 100644
--- a/core/include/bertini2/system/slice.hpp
+++ b/core/include/bertini2/system/slice.hpp
@@ -223,7 +223,7 @@ namespace bertini {
 		/**
 		\brief the constructor for linear slices.
 		*/
-		LinearSlice(VariableGroup const& v, unsigned dim, bool homogeneous) : sliced_vars_(v), precision_(DefaultPrecision()), num_dims_sliced_(dim), coefficients_highest_precision_(dim, v.size()), is_homogeneous_(homogeneous), constants_highest_precision_(dim)
+		LinearSlice(VariableGroup const& v, unsigned dim, bool homogeneous) : sliced_vars_(v), precision_(DefaultPrecision()), num_dims_sliced_(dim), coefficients_highest_precision_(dim, v.size()), is_homogeneous_(homogeneous), constants_highest_precision_(homogeneous ? 0u : dim)
 		{ 
 			std::get<Mat<dbl> > (coefficients_working_).resize(Dimension(), NumVariables());
 			std::get<Mat<mpfr_complex> >(coefficients_working_).resize(Dimension(), NumVariables());
-- 
2.43.0


From e44a795d70db57e40ceb271198d1d7ddd25de8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:02 +0000
Subject: [PATCH 28/68] fix: serialization of linear slices loses dimension,
 constants and homogeneity

---
 core/include/bertini2/system/slice.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/include/bertini2/system/slice.hpp b/core/include/bertini2/system/slice.hpp
index c991cbb..01b822b 100644
--- a/core/include/bertini2/system/slice.hpp
+++ b/core/include/bertini2/system/slice.hpp
@@ -327,7 +327,15 @@ namespace bertini {
 
 			ar & std::get<0>(coefficients_working_);
 			ar & std::get<1>(coefficients_working_);
+
+			ar & constants_highest_precision_;
+
+			ar & std::get<0>(constants_working_);
+			ar & std::get<1>(constants_working_);
+
 			ar & sliced_vars_;
+			ar & num_dims_sliced_;
+			ar & is_homogeneous_;
 		}
 
 		friend std::ostream& operator<<(std::ostream&, LinearSlice const&);
-- 
2.43.0


From 7ee66e5c312930afe8bd08fab33a305f2fbcd4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:31 +0000
Subject: [PATCH 29/68] fix: precision of the homogenizing variable of linear
 products

---
 core/include/bertini2/function_tree/symbols/linear_product.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/include/bertini2/function_tree/symbols/linear_product.hpp b/core/include/bertini2/function_tree/symbols/linear_product.hpp
index b4e2ae7..91a1b55 100644
--- a/core/include/bertini2/function_tree/symbols/linear_product.hpp
+++ b/core/include/bertini2/function_tree/symbols/linear_product.hpp
@@ -333,6 +333,7 @@ namespace  bertini {
 				for (auto iter : variables_)
 					iter->precision(prec);
 
+				hom_variable_->precision(prec);
 			};
 			
 			
-- 
2.43.0


From 2e6cf356fa0a31ccec017598e33f24e7002a15a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:14 +0000
Subject: [PATCH 30/68] fix: functions lose the name they are made with

---
 core/src/function_tree/roots/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/function_tree/roots/function.cpp b/core/src/function_tree/roots/function.cpp
index 69aa42a..3476722 100644
--- a/core/src/function_tree/roots/function.cpp
+++ b/core/src/function_tree/roots/function.cpp
@@ -211,11 +211,11 @@ void Handle::precision(unsigned int prec) const
 
 
 
-Function::Function(std::string const& new_name) : Handle(new_name)
+Function::Function(std::string const& new_name) : NamedSymbol(new_name), Handle(new_name)
 { }
 
 
-Function::Function(const std::shared_ptr<Node> & entry, std::string const& name) : Handle(entry, name)
+Function::Function(const std::shared_ptr<Node> & entry, std::string const& name) : NamedSymbol(name), Handle(entry, name)
 {
 }
 
-- 
2.43.0


From ac1dd2e52ee0f3f9e3065fb2b81d5bef8435f569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:14 +0000
Subject: [PATCH 31/68] fix: serialization of logarithms

---
 core/include/bertini2/function_tree.hpp | 2 ++
 core/src/function_tree/node.cpp         | 1 +
 2 files changed, 3 insertions(+)

diff --git a/core/include/bertini2/function_tree.hpp b/core/include/bertini2/function_tree.hpp
index 320ef12..c422f52 100644
--- a/core/include/bertini2/function_tree.hpp
+++ b/core/include/bertini2/function_tree.hpp
@@ -101,6 +101,7 @@ BOOST_CLASS_EXPORT_KEY(bertini::node::PowerOperator)
 BOOST_CLASS_EXPORT_KEY(bertini::node::IntegerPowerOperator)
 BOOST_CLASS_EXPORT_KEY(bertini::node::SqrtOperator)
 BOOST_CLASS_EXPORT_KEY(bertini::node::ExpOperator)
+BOOST_CLASS_EXPORT_KEY(bertini::node::LogOperator)
 
 
 
@@ -142,6 +143,7 @@ BOOST_CLASS_TRACKING(bertini::node::PowerOperator, boost::serialization::track_a
 BOOST_CLASS_TRACKING(bertini::node::IntegerPowerOperator, boost::serialization::track_always)
 BOOST_CLASS_TRACKING(bertini::node::SqrtOperator, boost::serialization::track_always)
 BOOST_CLASS_TRACKING(bertini::node::ExpOperator, boost::serialization::track_always)
+BOOST_CLASS_TRACKING(bertini::node::LogOperator, boost::serialization::track_always)
 
 
 
diff --git a/core/src/function_tree/node.cpp b/core/src/function_tree/node.cpp
index 3542635..6540e61 100644
--- a/core/src/function_tree/node.cpp
+++ b/core/src/function_tree/node.cpp
@@ -54,6 +54,7 @@ BOOST_CLASS_EXPORT_IMPLEMENT(bertini::node::PowerOperator)
 BOOST_CLASS_EXPORT_IMPLEMENT(bertini::node::IntegerPowerOperator)
 BOOST_CLASS_EXPORT_IMPLEMENT(bertini::node::SqrtOperator)
 BOOST_CLASS_EXPORT_IMPLEMENT(bertini::node::ExpOperator)
+BOOST_CLASS_EXPORT_IMPLEMENT(bertini::node::LogOperator)
 
 
 
-- 
2.43.0


From 539207961974adc0f16c212e0fcd6ec0d5addc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:12 +0000
Subject: [PATCH 32/68] fix: serialization of linear products

---
 .../function_tree/forward_declares.hpp        |  1 +
 .../function_tree/symbols/linear_product.hpp  | 39 ++++++++++++++++++-
 core/src/function_tree/node.cpp               |  3 ++
 3 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/core/include/bertini2/function_tree/forward_declares.hpp b/core/include/bertini2/function_tree/forward_declares.hpp
index c445755..0906f8b 100644
--- a/core/include/bertini2/function_tree/forward_declares.hpp
+++ b/core/include/bertini2/function_tree/forward_declares.hpp
@@ -109,6 +109,7 @@ namespace bertini {
 			ar.template register_type<bertini::node::NegateOperator>();
 			ar.template register_type<bertini::node::SqrtOperator>();
 			ar.template register_type<bertini::node::LinearProduct>();
+			ar.template register_type<bertini::node::DiffLinear>();
 			// ar.template register_type<bertini::node::TrigOperator>(); // abstract type
 			ar.template register_type<bertini::node::SinOperator>();
 			ar.template register_type<bertini::node::ArcSinOperator>();
diff --git a/core/include/bertini2/function_tree/symbols/linear_product.hpp b/core/include/bertini2/function_tree/symbols/linear_product.hpp
index 91a1b55..eaa8f60 100644
--- a/core/include/bertini2/function_tree/symbols/linear_product.hpp
+++ b/core/include/bertini2/function_tree/symbols/linear_product.hpp
@@ -740,6 +740,26 @@ namespace  bertini {
 			template <typename Archive>
 			void serialize(Archive& ar, const unsigned version) {
 				ar & boost::serialization::base_object<Symbol>(*this);
+
+				ar & coeffs_rat_real_;
+				ar & coeffs_rat_imag_;
+				ar & coeffs_highest_precision_;
+				ar & std::get<Mat<dbl>>(coeffs_);
+				ar & std::get<Mat<mpfr_complex>>(coeffs_);
+
+				ar & variables_;
+				ar & hom_variable_;
+				ar & num_variables_;
+				ar & num_factors_;
+				ar & is_rational_coeffs_;
+				ar & is_homogenized_;
+				ar & is_hom_vars_;
+
+				if (Archive::is_loading::value)
+				{
+					temp_var_d_.resize(num_variables_ + 1);
+					temp_var_mp_.resize(num_variables_ + 1);
+				}
 			}
 			
 			
@@ -1110,7 +1130,17 @@ namespace  bertini {
 			
 			template <typename Archive>
 			void serialize(Archive& ar, const unsigned version) {
-				ar & boost::serialization::base_object<NaryOperator>(*this);
+				ar & boost::serialization::base_object<Symbol>(*this);
+
+				ar & coeffs_rat_real_;
+				ar & coeffs_rat_imag_;
+				ar & coeffs_highest_precision_;
+				ar & std::get<Mat<dbl>>(coeffs_);
+				ar & std::get<Mat<mpfr_complex>>(coeffs_);
+
+				ar & variables_;
+				ar & hom_variable_;
+				ar & num_variables_;
 			}
 			
 			
@@ -1140,6 +1170,13 @@ namespace  bertini {
 } // re: namespace bertini
 
 
+BOOST_CLASS_EXPORT_KEY(bertini::node::LinearProduct)
+BOOST_CLASS_EXPORT_KEY(bertini::node::DiffLinear)
+
+BOOST_CLASS_TRACKING(bertini::node::LinearProduct, boost::serialization::track_always)
+BOOST_CLASS_TRACKING(bertini::node::DiffLinear, boost::serialization::track_always)
+
+
 
 
 #endif
diff --git a/core/src/function_tree/node.cpp b/core/src/function_tree/node.cpp
index 6540e61..eac52a8 100644
--- a/core/src/function_tree/node.cpp
+++ b/core/src/function_tree/node.cpp
@@ -56,6 +56,9 @@ BOOST_CLASS_EXPORT_IMPLEMENT(bertini::node::SqrtOperator)
 BOOST_CLASS_EXPORT_IMPLEMENT(bertini::node::ExpOperator)
 BOOST_CLASS_EXPORT_IMPLEMENT(bertini::node::LogOperator)
 
+BOOST_CLASS_EXPORT_IMPLEMENT(bertini::node::LinearProduct)
+BOOST_CLASS_EXPORT_IMPLEMENT(bertini::node::DiffLinear)
+
 
 
 
-- 
2.43.0


From b2e839f1488be191530311d941fe2bb2c9452c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:12 +0000
Subject: [PATCH 33/68] fix: serialization of multihomogeneous start systems

---
 core/include/bertini2/system/start/mhom.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/include/bertini2/system/start/mhom.hpp b/core/include/bertini2/system/start/mhom.hpp
index 7bea77a..24a7348 100644
--- a/core/include/bertini2/system/start/mhom.hpp
+++ b/core/include/bertini2/system/start/mhom.hpp
@@ -136,6 +136,11 @@ namespace bertini
 			{
 				ar & boost::serialization::base_object<StartSystem>(*this);
 				ar & degrees_;
+				ar & degree_matrix_;
+				ar & valid_partitions_;
+				ar & var_groups_;
+				ar & linprod_matrix_;
+				ar & variable_cols_;
 			}
 
 		};
-- 
2.43.0


From 1b44e785272fccb9b6e351d32723c939bbda2f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:12 +0000
Subject: [PATCH 34/68] fix: serialization of user start systems

---
 core/include/bertini2/system/start/user.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/include/bertini2/system/start/user.hpp b/core/include/bertini2/system/start/user.hpp
index 647a47a..9ca1285 100644
--- a/core/include/bertini2/system/start/user.hpp
+++ b/core/include/bertini2/system/start/user.hpp
@@ -109,7 +109,7 @@ namespace bertini
 				ar & boost::serialization::base_object<StartSystem>(*this);
 			}
 
-			const bertini::System& user_system_;
+			bertini::System user_system_;
 			std::tuple<SampCont<dbl>, SampCont<mpfr_complex>> solns_;
 			bool solns_in_dbl_;
 		};
@@ -125,9 +125,10 @@ inline void save_construct_data(
     ar << t->user_system_;
     ar << t->solns_in_dbl_;
 
-    ar << std::get<0>(t->solns_);
-	ar << std::get<1>(t->solns_);
-
+    if (t->solns_in_dbl_)
+    	ar << std::get<0>(t->solns_);
+    else
+    	ar << std::get<1>(t->solns_);
 }
 
 template<class Archive>
-- 
2.43.0


From 3d2593c600d225eeb80a89f0140252ba37d288da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:21 +0000
Subject: [PATCH 35/68] fix: a leading sign in an expression applies to
 everything after it

-x+y was read as -(x+y).  A sign applies to the factor it precedes.
---
 core/include/bertini2/io/parsing/function_rules.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/include/bertini2/io/parsing/function_rules.hpp b/core/include/bertini2/io/parsing/function_rules.hpp
index 3dcdf40..506e6f4 100644
--- a/core/include/bertini2/io/parsing/function_rules.hpp
+++ b/core/include/bertini2/io/parsing/function_rules.hpp
@@ -198,8 +198,8 @@ namespace bertini {
 					exp_elem_ =
 					(symbol_  >> !qi::alnum) [_val = _1]
 					|   ( '(' > expression_  [_val = _1] > ')'  ) // using the > expectation here.
-					|   (lit('-') > expression_  [_val = -_1])
-					|   (lit('+') > expression_  [_val = _1])
+					|   (lit('-') > factor_  [_val = -_1])
+					|   (lit('+') > factor_  [_val = _1])
 					|   (lit("sin") > '(' > expression_ [_val = sin_lazy(_1)] > ')' )
 					|   (lit("cos") > '(' > expression_ [_val = cos_lazy(_1)] > ')' )
 					|   (lit("tan") > '(' > expression_ [_val = tan_lazy(_1)] > ')' )
-- 
2.43.0


From 38dd9d1e1765d76e2cdbc6552f694a6820b23fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:50 +0000
Subject: [PATCH 36/68] fix: number literals in expressions

1e5 and --2 threw, exponents with a + were refused, -2^2 was (-2)^2 while -x^2
is -(x^2), and integers with a leading 0 were read as octal.
---
 .../include/bertini2/io/parsing/function_rules.hpp | 14 ++++++++++++--
 core/include/bertini2/io/parsing/number_rules.hpp  |  6 ++----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/core/include/bertini2/io/parsing/function_rules.hpp b/core/include/bertini2/io/parsing/function_rules.hpp
index 506e6f4..cae973e 100644
--- a/core/include/bertini2/io/parsing/function_rules.hpp
+++ b/core/include/bertini2/io/parsing/function_rules.hpp
@@ -233,10 +233,20 @@ namespace bertini {
 					
 					
 					number_.name("number_");
-					number_ =
+					number_ = !lit('-') >> // a sign is dealt with in exp_elem_, so that it binds less tightly than ^
+					(
 					mpfr_rules_.long_number_string_ [ _val = make_shared_<Float>()(_1) ]
 					|
-					mpfr_rules_.integer_string_ [ _val = make_shared_<Integer>()(_1) ];
+					mpfr_rules_.integer_string_ [ phx::bind( []
+															(std::shared_ptr<Node> & N, std::string const& s)
+															{
+																if (s.find('e')!=std::string::npos)
+																	N = Float::Make(s);
+																else // a leading 0 would make it octal
+																	N = Integer::Make(s.substr(std::min(s.find_first_not_of('0'),s.size()-1)));
+															},
+															_val,_1)]
+					);
 					
 					
 					
diff --git a/core/include/bertini2/io/parsing/number_rules.hpp b/core/include/bertini2/io/parsing/number_rules.hpp
index 8ced877..80a2829 100644
--- a/core/include/bertini2/io/parsing/number_rules.hpp
+++ b/core/include/bertini2/io/parsing/number_rules.hpp
@@ -132,9 +132,7 @@ namespace bertini{
 				number_with_no_point_.name("number_with_no_point_");
 				number_with_no_point_ = eps[_val = std::string()]
 				>>
-				(-(qi::lit('-')[_val += "-"]) // then an optional minus sign
-				>>
-				+(qi::char_(L'0',L'9'))[_val += _1])
+				+(qi::char_(L'0',L'9')[_val += _1])
 				;
 				
 				
@@ -149,7 +147,7 @@ namespace bertini{
 					 qi::lit('E')[_val += "e"] // get an opening 'e'
 					 )
 					>>
-					-(qi::lit('-')[_val += "-"]) // then an optional minus sign
+					-(qi::lit('-')[_val += "-"] | qi::lit('+')) // then an optional sign
 					>>
 					+(qi::char_(L'0',L'9')[_val += _1]) // then at least one number
 					); // finish the rule off
-- 
2.43.0


From e98d001590636e54e2280d1cc5f87e229c639343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:47 +0000
Subject: [PATCH 37/68] fix: input file without keywords has its text doubled

A failed alternative left what it had read in the attribute shared with the next.
---
 core/include/bertini2/io/parsing/classic_utilities.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/include/bertini2/io/parsing/classic_utilities.hpp b/core/include/bertini2/io/parsing/classic_utilities.hpp
index 132bba0..a9218ca 100644
--- a/core/include/bertini2/io/parsing/classic_utilities.hpp
+++ b/core/include/bertini2/io/parsing/classic_utilities.hpp
@@ -230,11 +230,11 @@ namespace bertini {
 					
 					only_input_.name("have_only_input");
 					only_input_ = (
-								   (omit[input_] >> end_ >> omit[no_decl_]) // 3
+								   qi::hold[omit[input_] >> end_ >> omit[no_decl_]] // 3
 								   |
-								   (omit[input_] >> no_decl_) // 2
+								   qi::hold[omit[input_] >> no_decl_] // 2
 								   |
-								   (end_ >> omit[no_decl_])  // 1
+								   qi::hold[end_ >> omit[no_decl_]]  // 1
 								   |
 								   (no_decl_) // 0
 								   )
-- 
2.43.0


From df0cc7a6d37b1779bfabc4f8e0f10434c1a46b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:47 +0000
Subject: [PATCH 38/68] fix: SplitIntoConfigAndInput ignores that files have
 comments

Use the same function as for strings, which strips them.
---
 core/include/bertini2/io/parsing/classic_utilities.hpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/core/include/bertini2/io/parsing/classic_utilities.hpp b/core/include/bertini2/io/parsing/classic_utilities.hpp
index a9218ca..8c85656 100644
--- a/core/include/bertini2/io/parsing/classic_utilities.hpp
+++ b/core/include/bertini2/io/parsing/classic_utilities.hpp
@@ -403,13 +403,7 @@ namespace bertini {
 			 */
 			std::tuple<std::string, std::string> SplitIntoConfigAndInput(Path const& input_file)
 			{
-				auto file_as_string = FileToString(input_file);
-				
-				SplitInputFileParser<std::string::const_iterator> parser;
-				SplitInputFile config_and_input;
-				std::string::const_iterator iter = file_as_string.begin();
-				std::string::const_iterator end = file_as_string.end();
-				phrase_parse(iter, end, parser, boost::spirit::ascii::space, config_and_input);
+				auto config_and_input = ParseInputFile(FileToString(input_file));
 
 				return std::make_tuple(config_and_input.Config(), config_and_input.Input());
 			}
-- 
2.43.0


From 5aba05550ad659a6456c4b8b3dc61eb7fa8b4730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:47 +0000
Subject: [PATCH 39/68] fix: names beginning with another name are refused in
 system files

After declaring x1, neither x10 nor f1 following f could be declared, nor could
any name beginning with e, i, pi or a keyword.
---
 .../bertini2/io/parsing/system_rules.hpp      | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/core/include/bertini2/io/parsing/system_rules.hpp b/core/include/bertini2/io/parsing/system_rules.hpp
index d8083ed..c0eebe7 100644
--- a/core/include/bertini2/io/parsing/system_rules.hpp
+++ b/core/include/bertini2/io/parsing/system_rules.hpp
@@ -169,15 +169,15 @@ namespace bertini {
 					variables_.name("variables_"); hom_variable_group_.name("hom_variable_group_"); variable_group_.name("variable_group_"); implicit_parameters_.name("implicit_parameters_");
 					
 					
-					variables_			= "variable" > genericvargp_ > ';';
-					hom_variable_group_ = "hom_variable_group" > genericvargp_ > ';';
-					variable_group_		= "variable_group" > genericvargp_ > ';';
-					implicit_parameters_ = "implicit_parameter" > genericvargp_ > ';';
+					variables_			= lexeme["variable" >> end_of_word_] > genericvargp_ > ';';
+					hom_variable_group_ = lexeme["hom_variable_group" >> end_of_word_] > genericvargp_ > ';';
+					variable_group_		= lexeme["variable_group" >> end_of_word_] > genericvargp_ > ';';
+					implicit_parameters_ = lexeme["implicit_parameter" >> end_of_word_] > genericvargp_ > ';';
 					
 					
 					
 					path_variable_.name("path_variable_");
-					path_variable_ = "pathvariable" > new_variable_ > ';';
+					path_variable_ = lexeme["pathvariable" >> end_of_word_] > new_variable_ > ';';
 					
 					
 					
@@ -194,9 +194,9 @@ namespace bertini {
 					
 					functions_.name("functions_"); constants_.name("constants_"); parameters_.name("parameters_");
 					
-					functions_ = "function" > genericfuncgp_ > ';';
-					constants_ = "constant" > genericfuncgp_ > ';';
-					parameters_ = "parameter" > genericfuncgp_ > ';';
+					functions_ = lexeme["function" >> end_of_word_] > genericfuncgp_ > ';';
+					constants_ = lexeme["constant" >> end_of_word_] > genericfuncgp_ > ';';
+					parameters_ = lexeme["parameter" >> end_of_word_] > genericfuncgp_ > ';';
 					
 					
 					genericfuncgp_.name("genericfuncgp_");
@@ -214,7 +214,11 @@ namespace bertini {
 					
 					// this rule gets a string.
 					unencountered_symbol_.name("unencountered_symbol_");
-					unencountered_symbol_ = valid_variable_name_ - lexeme[( declarative_symbols_ | encountered_symbols_ )];
+					unencountered_symbol_ = valid_variable_name_ - ( (declarative_symbols_ >> end_of_word_) | (encountered_symbols_ >> end_of_word_) );
+					
+					// so that a name may begin with another name, or with a keyword
+					end_of_word_.name("end_of_word_");
+					end_of_word_ = !(qi::alnum | qi::char_("[]_"));
 					// i am unsure about the use of lexeme in the above rule (unencountered_symbol).
 					
 					
@@ -330,6 +334,7 @@ namespace bertini {
 				
 				// the rule which determines valid variable names
 				qi::rule<Iterator, std::string()> valid_variable_name_;
+				qi::rule<Iterator> end_of_word_;
 				
 				qi::rule<Iterator, Skipper, qi::unused_type> definition_;
 				
-- 
2.43.0


From 62c11966214c771f5a64ae1738ede071f604e59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:00 +0000
Subject: [PATCH 40/68] fix: settings given as quotients are refused

The rule for rationals accepted a number before it looked for a quotient, and the
quotient could not be converted.
---
 .../bertini2/io/parsing/number_rules.hpp      | 24 +++++++++++++++----
 .../io/parsing/settings_parsers/endgames.hpp  |  2 +-
 .../io/parsing/settings_parsers/tracking.hpp  |  6 ++---
 3 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/core/include/bertini2/io/parsing/number_rules.hpp b/core/include/bertini2/io/parsing/number_rules.hpp
index 80a2829..9cfcf42 100644
--- a/core/include/bertini2/io/parsing/number_rules.hpp
+++ b/core/include/bertini2/io/parsing/number_rules.hpp
@@ -53,7 +53,20 @@ namespace bertini{
 		namespace ascii = ::boost::spirit::ascii;
 
 		namespace rules{
-		/** 
+		/**
+		\brief The value of a string matching LongNum::rational -- a number, or a quotient of two.
+		*/
+		inline
+		mpq_rational RationalFromString(std::string const& s)
+		{
+			auto slash = s.find('/');
+			mpq_rational numerator(NumTraits<double>::FromString(s.substr(0,slash)));
+			if (slash==std::string::npos)
+				return numerator;
+			return mpq_rational(numerator / mpq_rational(NumTraits<double>::FromString(s.substr(slash+1))));
+		}
+
+/** 
 		/brief Struct that holds the rules for parsing mpfr numbers
 		
 		Use: Include this struct with the rest of your rules.
@@ -153,10 +166,11 @@ namespace bertini{
 					); // finish the rule off
 				
 				rational.name("long_rational");
-				rational =
-				(number_string_
-				|
-				(number_string_ >> char_('/') >> number_string_));
+				rational = eps[_val = std::string()]
+				>>
+				number_string_[_val += _1]
+				>>
+				-(char_('/')[_val += _1] >> number_string_[_val += _1]);
 
 			}
 			
diff --git a/core/include/bertini2/io/parsing/settings_parsers/endgames.hpp b/core/include/bertini2/io/parsing/settings_parsers/endgames.hpp
index 7375db8..ab6ca32 100644
--- a/core/include/bertini2/io/parsing/settings_parsers/endgames.hpp
+++ b/core/include/bertini2/io/parsing/settings_parsers/endgames.hpp
@@ -193,7 +193,7 @@ namespace bertini {
 					sample_factor_ = *(char_ - all_names_) >> (no_case[samplefactor_name] >> ':')
 					>> mpfr_rules.rational[phx::bind( [this](R & num, std::string str)
 														   {
-															   num = bertini::NumTraits<double>::FromString(str);
+															   num = rules::RationalFromString(str);
 														   }, _val, _1 )] >> ';';
 					
 					min_track_.name("min_track_");
diff --git a/core/include/bertini2/io/parsing/settings_parsers/tracking.hpp b/core/include/bertini2/io/parsing/settings_parsers/tracking.hpp
index 2bc4373..93781d6 100644
--- a/core/include/bertini2/io/parsing/settings_parsers/tracking.hpp
+++ b/core/include/bertini2/io/parsing/settings_parsers/tracking.hpp
@@ -312,21 +312,21 @@ namespace bertini {
 					max_step_size_ = *(char_ - all_names_) >> (no_case[maxstep_name] >> ':')
 					>> mpfr_rules.rational[phx::bind( [this](T & num, std::string const& str)
 														   {
-															   num = bertini::NumTraits<T>::FromString(str);
+															   num = static_cast<double>(rules::RationalFromString(str));
 														   }, _val, _1 )] >> ';';
 					
 					stepsize_success_.name("stepsize_success_");
 					stepsize_success_ = *(char_ - all_names_) >> (no_case[stepsuccess_name] >> ':')
 					>> mpfr_rules.rational[phx::bind( [this](R & num, std::string const& str)
 														   {
-															num = bertini::NumTraits<double>::FromString(str);
+															num = rules::RationalFromString(str);
 														   }, _val, _1 )] >> ';';
 					
 					stepsize_fail_.name("stepsize_fail_");
 					stepsize_fail_ = *(char_ - all_names_) >> (no_case[stepfail_name] >> ':')
 					>> mpfr_rules.rational[phx::bind( [this](R & num, std::string const& str)
 														   {
-															   num = bertini::NumTraits<double>::FromString(str);
+															   num = rules::RationalFromString(str);
 														   }, _val, _1 )] >> ';';
 					
 					steps_increase_.name("steps_increase_");
-- 
2.43.0


From d6ca9189767f9efdc72ca6351a63311d39685861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:00 +0000
Subject: [PATCH 41/68] fix: PathVarName takes in the settings written before
 it

---
 core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp b/core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp
index 35a666f..2da3d8a 100644
--- a/core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp
+++ b/core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp
@@ -251,7 +251,7 @@ namespace bertini {
 
 
 					path_variable_name_.name("path_variable_name_");
-					path_variable_name_ = *(char_ - all_names_) >> (no_case[path_variable_name_name] >> ':') >> valid_variable_name_ >> ';';
+					path_variable_name_ = omit[*(char_ - all_names_)] >> (no_case[path_variable_name_name] >> ':') >> valid_variable_name_ >> ';';
 
 					init_prec_.name("init_prec_");
 					init_prec_ = *(char_ - all_names_) >> (no_case[init_prec_name] >> ':') >> qi::int_[_val=_1] >> ';';
-- 
2.43.0


From 3ae5bf0b8b9c510c5b1e0acd29457fc7eb965310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:00 +0000
Subject: [PATCH 42/68] fix: ODEPredictor 3 is the Heun-Euler method

---
 core/include/bertini2/io/parsing/settings_parsers/tracking.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/bertini2/io/parsing/settings_parsers/tracking.hpp b/core/include/bertini2/io/parsing/settings_parsers/tracking.hpp
index 93781d6..83e50c7 100644
--- a/core/include/bertini2/io/parsing/settings_parsers/tracking.hpp
+++ b/core/include/bertini2/io/parsing/settings_parsers/tracking.hpp
@@ -168,7 +168,7 @@ namespace bertini {
 					predictor_.add("0", Predictor::Euler);
 					predictor_.add("1", Predictor::Heun);
 					predictor_.add("2", Predictor::RK4);
-					predictor_.add("3", Predictor::Heun);
+					predictor_.add("3", Predictor::HeunEuler);
 					predictor_.add("4", Predictor::RKNorsett34);
 					predictor_.add("5", Predictor::RKF45);
 					predictor_.add("6", Predictor::RKCashKarp45);
-- 
2.43.0


From 0aa403403f96ee1afe009559deaa78ae2c2a2144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:28 +0000
Subject: [PATCH 43/68] fix: a minimum of 0 Newton iterations no longer means
 that none is ever enough

---
 core/include/bertini2/trackers/newton_corrector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/include/bertini2/trackers/newton_corrector.hpp b/core/include/bertini2/trackers/newton_corrector.hpp
index e697cf7..f9168ff 100644
--- a/core/include/bertini2/trackers/newton_corrector.hpp
+++ b/core/include/bertini2/trackers/newton_corrector.hpp
@@ -162,7 +162,7 @@ namespace bertini{
 						
 						next_space += step_ref;
 						
-						if ( (step_ref.template lpNorm<Eigen::Infinity>() < tracking_tolerance) && (ii >= (min_num_newton_iterations-1)) )
+						if ( (step_ref.template lpNorm<Eigen::Infinity>() < tracking_tolerance) && (ii+1 >= min_num_newton_iterations) )
 							return SuccessCode::Success;
 					}
 					
@@ -223,7 +223,7 @@ namespace bertini{
 						Mat<ComplexType>& J_temp_ref = std::get< Mat<ComplexType> >(J_temp_);
 						Eigen::PartialPivLU< Mat<ComplexType> >& LU_ref = std::get< Eigen::PartialPivLU< Mat<ComplexType> > >(LU_);
 						
-						if ( (step_ref.template lpNorm<Eigen::Infinity>() < tracking_tolerance) && (ii >= (min_num_newton_iterations-1)) )
+						if ( (step_ref.template lpNorm<Eigen::Infinity>() < tracking_tolerance) && (ii+1 >= min_num_newton_iterations) )
 							return SuccessCode::Success;
 						
 						NumErrorT norm_J_inverse(LU_ref.solve(RandomOfUnits<ComplexType>(S.NumVariables())).norm());
@@ -304,7 +304,7 @@ namespace bertini{
 						norm_J_inverse = NumErrorT(LU_ref.solve(RandomOfUnits<ComplexType>(S.NumVariables())).norm());
 						condition_number_estimate = NumErrorT(norm_J*norm_J_inverse);
 												
-						if ( (norm_delta_z < tracking_tolerance) && (ii >= (min_num_newton_iterations-1)) )
+						if ( (norm_delta_z < tracking_tolerance) && (ii+1 >= min_num_newton_iterations) )
 							return SuccessCode::Success;
 						
 						if (!amp::CriterionB<ComplexType>(norm_J, norm_J_inverse, max_num_newton_iterations - ii, tracking_tolerance, norm_delta_z, AMP_config))
-- 
2.43.0


From 11df132ca00ca35002780163f5516a79d74c54a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:28 +0000
Subject: [PATCH 44/68] fix: the Heun-Euler pair is of order 1, its error
 estimate of order 2

---
 core/include/bertini2/trackers/explicit_predictors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/bertini2/trackers/explicit_predictors.hpp b/core/include/bertini2/trackers/explicit_predictors.hpp
index 9f21863..f7a4e45 100644
--- a/core/include/bertini2/trackers/explicit_predictors.hpp
+++ b/core/include/bertini2/trackers/explicit_predictors.hpp
@@ -92,7 +92,7 @@ namespace bertini{
 					case (Predictor::Heun):
 						return 2;
 					case (Predictor::HeunEuler):
-						return 2;
+						return 1;
 					case (Predictor::RKNorsett34):
 						return 3;
 					case (Predictor::RK4):
-- 
2.43.0


From b5c6a1a29b13ac7ecaf6a81483efabd7735383c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:28 +0000
Subject: [PATCH 45/68] fix: random multiprecision units have modulus one

---
 core/include/bertini2/random.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/include/bertini2/random.hpp b/core/include/bertini2/random.hpp
index 7485052..3b882f5 100644
--- a/core/include/bertini2/random.hpp
+++ b/core/include/bertini2/random.hpp
@@ -215,7 +215,7 @@ using bertini::RandomMp;
 	inline complex rand_unit()
 	{
 		complex returnme( RandomMp(mpfr_float(-1),mpfr_float(1)), RandomMp(mpfr_float(-1),mpfr_float(1)) );
-		return returnme / sqrt( abs(returnme));
+		return returnme / abs(returnme);
 	}
 
 	inline complex RandomUnit()
@@ -256,7 +256,7 @@ using bertini::RandomMp;
 		a.precision(num_digits);
 		
 		complex temp(RandomMp(num_digits),RandomMp(num_digits));
-		a = std::move(temp/sqrt(abs(temp)));
+		a = std::move(temp/abs(temp));
 		DefaultPrecision(cached);
 	}
 
-- 
2.43.0


From 3138ddd4b990cfe84e168a820f569218cebab2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:24 +0000
Subject: [PATCH 46/68] fix: the adaptive tracker takes at least the minimum
 number of steps

---
 core/include/bertini2/trackers/amp_tracker.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/include/bertini2/trackers/amp_tracker.hpp b/core/include/bertini2/trackers/amp_tracker.hpp
index 233a74f..3774aec 100644
--- a/core/include/bertini2/trackers/amp_tracker.hpp
+++ b/core/include/bertini2/trackers/amp_tracker.hpp
@@ -454,9 +454,10 @@ namespace bertini{
 				endtime_.precision(initial_precision_);
 
 				current_stepsize_.precision(initial_precision_);
+				mpfr_float segment_length = abs(start_time-end_time)/Get<Stepping>().min_num_steps;
+				longest_stepsize_ = segment_length;
 				if (reinitialize_stepsize_)
 				{
-					mpfr_float segment_length = abs(start_time-end_time)/Get<Stepping>().min_num_steps;
 					SetStepSize(min(NumTraits<mpfr_float>::FromRational(Get<Stepping>().initial_step_size, current_precision_),segment_length));
 				}
 
@@ -748,6 +749,8 @@ namespace bertini{
 				mpfr_float max_stepsize = min( current_stepsize_ * NumTraits<mpfr_float>::FromRational(Get<Stepping>().step_size_success_factor, current_precision_),  NumTraits<mpfr_float>::FromRational(Get<Stepping>().max_step_size, current_precision_));
 
 
+				if (Get<Stepping>().min_num_steps > 1)
+					max_stepsize = min(max_stepsize, mpfr_float(longest_stepsize_, current_precision_));
 				unsigned min_precision = MinRequiredPrecision_BCTol<ComplexType>();
 				unsigned max_precision = max(min_precision,current_precision_);
 
@@ -1627,6 +1630,7 @@ namespace bertini{
 			mutable unsigned num_successful_steps_since_precision_decrease_; ///< The number of successful steps since decreased precision.
 
 			mutable mpfr_complex endtime_highest_precision_;
+			mutable mpfr_float longest_stepsize_; ///< The step size with which the minimum number of steps covers the path being tracked.
 
 		public:
 
-- 
2.43.0


From 693384f0168df2fb602f0f9664033e3cace82846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:18 +0000
Subject: [PATCH 47/68] fix: an observer that removes itself no longer makes
 others miss the event or see it twice

---
 core/include/bertini2/detail/observable.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/include/bertini2/detail/observable.hpp b/core/include/bertini2/detail/observable.hpp
index 4ccc308..dd29803 100644
--- a/core/include/bertini2/detail/observable.hpp
+++ b/core/include/bertini2/detail/observable.hpp
@@ -88,7 +88,8 @@ namespace bertini{
 		void NotifyObservers(AnyEvent const& e) const
 		{
 
-			for (auto& obs : current_watchers_)
+			const auto watchers = current_watchers_; // a copy, because observers may add or remove observers, themselves included
+			for (auto& obs : watchers)
 				obs.get().Observe(e);
 
 		}
@@ -96,7 +97,8 @@ namespace bertini{
 		void NotifyObservers(AnyEvent & e) const
 		{
 
-			for (auto& obs : current_watchers_)
+			const auto watchers = current_watchers_; // a copy, because observers may add or remove observers, themselves included
+			for (auto& obs : watchers)
 				obs.get().Observe(e);
 		}
 
-- 
2.43.0


From eaed21f97e9a70c5e79b9127de215815d93aad52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:40 +0000
Subject: [PATCH 48/68] fix: trackers announce that tracking started, so that
 precision recorders begin afresh for each path

---
 .../include/bertini2/trackers/amp_tracker.hpp |  2 ++
 .../trackers/fixed_precision_tracker.hpp      |  4 +++
 core/include/bertini2/trackers/observers.hpp  | 35 ++++++++++---------
 3 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/core/include/bertini2/trackers/amp_tracker.hpp b/core/include/bertini2/trackers/amp_tracker.hpp
index 3774aec..11457c8 100644
--- a/core/include/bertini2/trackers/amp_tracker.hpp
+++ b/core/include/bertini2/trackers/amp_tracker.hpp
@@ -473,6 +473,8 @@ namespace bertini{
 
 				ChangePrecision<upsample_refine_off>(start_point(0).precision());
 
+				NotifyObservers(TrackingStarted<EmitterType>(*this));
+
 
 				auto initial_refinement_code = InitialRefinement();
 
diff --git a/core/include/bertini2/trackers/fixed_precision_tracker.hpp b/core/include/bertini2/trackers/fixed_precision_tracker.hpp
index f8f6998..5b809cc 100644
--- a/core/include/bertini2/trackers/fixed_precision_tracker.hpp
+++ b/core/include/bertini2/trackers/fixed_precision_tracker.hpp
@@ -463,6 +463,8 @@ namespace bertini{
 
 				ResetCounters();
 
+				this->NotifyObservers(TrackingStarted<EmitterType>(*this));
+
 				return SuccessCode::Success;
 			}
 
@@ -548,6 +550,8 @@ namespace bertini{
 
 				ResetCounters();
 
+				this->NotifyObservers(TrackingStarted<EmitterType>(*this));
+
 				return SuccessCode::Success;
 			}
 
diff --git a/core/include/bertini2/trackers/observers.hpp b/core/include/bertini2/trackers/observers.hpp
index 427d6a5..12dec5f 100644
--- a/core/include/bertini2/trackers/observers.hpp
+++ b/core/include/bertini2/trackers/observers.hpp
@@ -52,8 +52,11 @@ namespace bertini {
 
 			virtual void Observe(AnyEvent const& e) override
 			{
-				if(auto p = dynamic_cast<const TrackingStarted<EmitterT>*>(&e))
+				if (dynamic_cast<const Initializing<EmitterT, typename TrackerTraits<TrackerT>::BaseComplexType>*>(&e))
+					initializing_ = true;
+				else if(auto p = dynamic_cast<const TrackingStarted<EmitterT>*>(&e))
 				{
+					initializing_ = false;
 					precision_increased_ = false;
 					starting_precision_ = p->Get().CurrentPrecision();
 				}
@@ -61,7 +64,7 @@ namespace bertini {
 				{
 					auto& t = p->Get();
 					auto next = p->Next();
-					if (next > p->Previous())
+					if (next > p->Previous() && !initializing_) // getting to the precision of the start point is no increase
 					{
 						precision_increased_ = true;
 						next_precision_ = next;
@@ -101,9 +104,10 @@ namespace bertini {
 
 		private:
 
-			unsigned starting_precision_;
-			unsigned next_precision_;
-			bool precision_increased_;
+			unsigned starting_precision_ = 0;
+			unsigned next_precision_ = 0;
+			bool precision_increased_ = false;
+			bool initializing_ = false;
 			typename TrackerTraits<TrackerT>::BaseComplexType time_of_first_increase_;
 		};
 
@@ -117,18 +121,17 @@ namespace bertini {
 			virtual void Observe(AnyEvent const& e) override
 			{
 				if (auto p = dynamic_cast<const PrecisionChanged<EmitterT>*>(&e))
-				{
-					auto next_precision = p->Next();
-					if (next_precision < min_precision_)
-						min_precision_ = next_precision;
-					if (next_precision > max_precision_)
-						max_precision_ = next_precision;
-				}
+					Record(p->Next());
 				else if(auto p = dynamic_cast<const TrackingStarted<EmitterT>*>(&e))
-				{
-					min_precision_ = p->Get().CurrentPrecision();
-					max_precision_ = p->Get().CurrentPrecision();
-				}
+					Record(p->Get().CurrentPrecision());
+			}
+
+			void Record(unsigned precision)
+			{
+				if (precision < min_precision_)
+					min_precision_ = precision;
+				if (precision > max_precision_)
+					max_precision_ = precision;
 			}
 
 
-- 
2.43.0


From 52dbedd6d960cf948b432af2baebe63d89d86029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:44 +0000
Subject: [PATCH 49/68] fix: metadata of a path no longer depends on paths and
 solves before it

---
 core/include/bertini2/nag_algorithms/zero_dim_solve.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
index 7ab3919..108affa 100644
--- a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
+++ b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
@@ -574,7 +574,7 @@ std::ostream& operator<<(std::ostream & out, const EGBoundaryMetaData<NumT> & me
 			{
 				auto num_as_size_t = static_cast<SolnIndT>(num_start_points_);
 
-				solution_final_metadata_.resize(num_as_size_t);
+				solution_final_metadata_.assign(num_as_size_t, SolutionMetaDataT()); // afresh, there may be results of an earlier solve
 				solutions_at_endgame_boundary_.resize(num_as_size_t);
 				solutions_post_endgame_.resize(num_as_size_t);
 
@@ -593,6 +593,7 @@ std::ostream& operator<<(std::ostream & out, const EGBoundaryMetaData<NumT> & me
 				DefaultPrecision(this->template Get<ZeroDimConf>().initial_ambient_precision);
 
 				GetTracker().SetTrackingTolerance(this->template Get<Tolerances>().newton_before_endgame);
+				GetTracker().ReinitializeInitialStepSize(true); // is turned off for the endgame, possibly in an earlier solve
 
 				auto t_start = this->template Get<ZeroDimConf>().start_time;
 				auto t_endgame_boundary = this->template Get<ZeroDimConf>().endgame_boundary;
@@ -615,10 +616,13 @@ std::ostream& operator<<(std::ostream & out, const EGBoundaryMetaData<NumT> & me
 					{
 						GetTracker().AddObserver(first_prec_rec_);
 						GetTracker().AddObserver(min_max_prec_);
+						min_max_prec_ = decltype(min_max_prec_)(); // record this path only
 					}
 
 					auto& smd = solution_final_metadata_[soln_ind];
 
+					smd.precision_changed = false;
+					smd.max_precision_used = 0;
 					smd.path_index = soln_ind;
 					smd.solution_index = soln_ind;
 
@@ -719,6 +723,7 @@ std::ostream& operator<<(std::ostream & out, const EGBoundaryMetaData<NumT> & me
 						if (!smd.precision_changed)
 							GetTracker().AddObserver(first_prec_rec_);
 						GetTracker().AddObserver(min_max_prec_);
+						min_max_prec_ = decltype(min_max_prec_)(); // record this path only
 					}
 
 				const auto& bdry_point = solutions_at_endgame_boundary_[soln_ind].path_point;
-- 
2.43.0


From 11fb35a050cdefc6516944257c9e6c8c712e7ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:18 +0000
Subject: [PATCH 50/68] fix: crossed paths that started from different points
 are the ones to rerun

---
 core/include/bertini2/nag_algorithms/midpath_check.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/bertini2/nag_algorithms/midpath_check.hpp b/core/include/bertini2/nag_algorithms/midpath_check.hpp
index c7ead7f..b050551 100644
--- a/core/include/bertini2/nag_algorithms/midpath_check.hpp
+++ b/core/include/bertini2/nag_algorithms/midpath_check.hpp
@@ -158,7 +158,7 @@ namespace bertini{
 							
 							const auto start_jj = start_system.template StartPoint<ComplexType>(jj);
 							auto diff_start = start_ii - start_jj;
-							bool same_start = (diff_start.template lpNorm<Eigen::Infinity>() > SamePointTol());
+							bool same_start = (diff_start.template lpNorm<Eigen::Infinity>() < SamePointTol());
 							
 							
 							// Check if path has already been stored in crossed_paths_
-- 
2.43.0


From 8a548a75b3f42e6178f9d7a226bf555913bb609f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:18 +0000
Subject: [PATCH 51/68] fix: a midpath check judges the paths it is given, not
 those of earlier checks

---
 core/include/bertini2/nag_algorithms/midpath_check.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/include/bertini2/nag_algorithms/midpath_check.hpp b/core/include/bertini2/nag_algorithms/midpath_check.hpp
index b050551..97833b5 100644
--- a/core/include/bertini2/nag_algorithms/midpath_check.hpp
+++ b/core/include/bertini2/nag_algorithms/midpath_check.hpp
@@ -134,6 +134,10 @@ namespace bertini{
 			template <typename StartSystemT>
 			bool Check(BoundaryData const& boundary_data, StartSystemT const& start_system)
 			{
+				// forget the findings of earlier checks
+				passed_ = true;
+				crossed_paths_.clear();
+
 				for (PathIndT ii = 0; ii < boundary_data.size(); ++ii)
 				{
 					if ( boundary_data[ii].success_code != SuccessCode::Success)
@@ -209,7 +213,7 @@ namespace bertini{
 		private:
 			
 			std::vector<CrossedPath> crossed_paths_; // Data for all paths that crossed on last check
-			bool passed_;  // Did the check pass?
+			bool passed_ = true;  // Did the check pass?
 			
 			
 		}; //re: struct MidpathChecker
-- 
2.43.0


From 4ce8659b45ccc87cb74aee5b8384ed5786383dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:37 +0000
Subject: [PATCH 52/68] fix: endgames approach target times other than 0 with
 sample factors other than 1/2

---
 core/include/bertini2/endgames/base_endgame.hpp | 2 +-
 core/include/bertini2/endgames/cauchy.hpp       | 2 +-
 core/include/bertini2/endgames/powerseries.hpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/include/bertini2/endgames/base_endgame.hpp b/core/include/bertini2/endgames/base_endgame.hpp
index 6fe1657..5eb9c6b 100644
--- a/core/include/bertini2/endgames/base_endgame.hpp
+++ b/core/include/bertini2/endgames/base_endgame.hpp
@@ -359,7 +359,7 @@ public:
 		//start at 1, because the input point is the 0th element.
 		for(int ii=1; ii < this->template Get<EndgameConfig>().num_sample_points; ++ii)
 		{ 
-			times.emplace_back((times[ii-1] + target_time) * RT(this->template Get<EndgameConfig>().sample_factor)); // next time is a point between the previous time and target time.
+			times.emplace_back(target_time + (times[ii-1] - target_time) * RT(this->template Get<EndgameConfig>().sample_factor)); // next time is a point between the previous time and target time.
 			samples.emplace_back(Vec<CT>(num_vars));											   // sample_factor gives us some point between the two, usually the midpoint.		
 
 			auto tracking_success = this->GetTracker().TrackPath(samples[ii],times[ii-1],times[ii],samples[ii-1]);
diff --git a/core/include/bertini2/endgames/cauchy.hpp b/core/include/bertini2/endgames/cauchy.hpp
index 0044c4e..694cfd3 100644
--- a/core/include/bertini2/endgames/cauchy.hpp
+++ b/core/include/bertini2/endgames/cauchy.hpp
@@ -1022,7 +1022,7 @@ public:
 		auto& current_sample = ps_samples.back();
 
 		//Generalized next_time in case if we are not trying to converge to the t = 0.
-		CT next_time = (target_time-current_time) * static_cast<RT>(this->EndgameSettings().sample_factor)+current_time;
+		CT next_time = target_time + (current_time-target_time) * static_cast<RT>(this->EndgameSettings().sample_factor);
 
 		if (abs(next_time - target_time) < this->EndgameSettings().min_track_time)//we are too close to t = 0 but we do not have the correct tolerance - so we exit
 			return SuccessCode::MinTrackTimeReached;
diff --git a/core/include/bertini2/endgames/powerseries.hpp b/core/include/bertini2/endgames/powerseries.hpp
index 8a6f5f4..d43fdfa 100644
--- a/core/include/bertini2/endgames/powerseries.hpp
+++ b/core/include/bertini2/endgames/powerseries.hpp
@@ -574,7 +574,7 @@ public:
 		AssertSizesTimeSpaceDeriv<CT>();
 
 		Vec<CT> next_sample;
-		CT next_time = (times.back() + target_time) * static_cast<RT>(this->EndgameSettings().sample_factor); //setting up next time value using the midpoint formula, sample_factor will give us some 
+		CT next_time = target_time + (times.back() - target_time) * static_cast<RT>(this->EndgameSettings().sample_factor); //setting up next time value using the midpoint formula, sample_factor will give us some 
 
   		if (abs(next_time - target_time) < this->EndgameSettings().min_track_time) // generalized for target_time not equal to 0.
   		{
-- 
2.43.0


From efcbfe2315914a681346cbe75fa0387a07ecd758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:35 +0000
Subject: [PATCH 53/68] fix: the Cauchy endgame gives up on infinite paths at
 security level 0, and only there

---
 core/include/bertini2/endgames/cauchy.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/include/bertini2/endgames/cauchy.hpp b/core/include/bertini2/endgames/cauchy.hpp
index 694cfd3..0af8bf2 100644
--- a/core/include/bertini2/endgames/cauchy.hpp
+++ b/core/include/bertini2/endgames/cauchy.hpp
@@ -1123,7 +1123,7 @@ public:
 				return SuccessCode::Success;
 			}
 
-			if (this->SecuritySettings().level)
+			if (this->SecuritySettings().level <= 0)
 			{//we are too large, break out of loop to return error.
 				norm_of_dehom_latest = this->GetSystem().DehomogenizePoint(latest_approx).template lpNorm<Eigen::Infinity>();
 
@@ -1133,10 +1133,10 @@ public:
 					NotifyObservers(SecurityMaxNormReached<EmitterType>(*this));
 					return SuccessCode::SecurityMaxNormReached;
 				}
+				norm_of_dehom_prev = norm_of_dehom_latest;
 			}
 
 			prev_approx = latest_approx;
-			norm_of_dehom_prev = norm_of_dehom_latest;
 
 			auto advance_success = AdvanceTime<CT>(target_time);
 			if (advance_success != SuccessCode::Success)
-- 
2.43.0


From 3a35cd962daf31177d13b257407ccd6f62ad9a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:36 +0000
Subject: [PATCH 54/68] fix: the endgame of a zero dim solve gets its times in
 the precision of the point at its boundary

The copies kept the precision the settings happened to have, so adaptive
precision paths which arrive at the endgame boundary in another precision
made Solve() throw (Cauchy) or fail an assertion (power series).
---
 core/include/bertini2/nag_algorithms/zero_dim_solve.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
index 108affa..96830c0 100644
--- a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
+++ b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
@@ -736,6 +736,8 @@ std::ostream& operator<<(std::ostream & out, const EGBoundaryMetaData<NumT> & me
 				// we make these fresh so they are in the correct precision to start.
 				BaseComplexType t_end = this->template Get<ZeroDimConf>().target_time;
 				BaseComplexType t_endgame_boundary = this->template Get<ZeroDimConf>().endgame_boundary;
+				Precision(t_end, Precision(bdry_point)); // copying kept the precision of the setting
+				Precision(t_endgame_boundary, Precision(bdry_point));
 
 				auto eg_success = GetEndgame().Run(t_endgame_boundary, bdry_point, t_end);
 
-- 
2.43.0


From 52ff80cc29668a350779d717004b9ea24ce4c638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:36 +0000
Subject: [PATCH 55/68] fix: the midpath check of a zero dim solve works in the
 ambient precision

It compares start points, which are made in the default precision.  After
adaptive precision tracking that is whatever the last path ended in, which
need not be the precision of the start system's patch.
---
 core/include/bertini2/nag_algorithms/zero_dim_solve.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
index 96830c0..9d915a0 100644
--- a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
+++ b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
@@ -659,12 +659,14 @@ std::ostream& operator<<(std::ostream & out, const EGBoundaryMetaData<NumT> & me
 
 			void EGBoundaryAction()
 			{
+				DefaultPrecision(this->template Get<ZeroDimConf>().initial_ambient_precision); // the check makes start points, tracking has changed the precision
 				auto midcheckpassed = midpath_.Check(solutions_at_endgame_boundary_, StartSystem());
 
 				unsigned num_resolve_attempts = 0;
 				while (!midcheckpassed && num_resolve_attempts < this->template Get<ZeroDimConf>().max_num_crossed_path_resolve_attempts)
 				{
 					MidpathResolve();
+					DefaultPrecision(this->template Get<ZeroDimConf>().initial_ambient_precision);
 					midcheckpassed = midpath_.Check(solutions_at_endgame_boundary_, StartSystem());
 					num_resolve_attempts++;
 				}
-- 
2.43.0


From f0bbe307fd34912fde9bc7a7e312b3d4724657d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:54 +0000
Subject: [PATCH 56/68] fix: the previous approximation of the power series
 endgame is the previous one

It was overwritten with the final one when the endgame converged, so the
accuracy estimate in user coordinates that a zero dim solve reports was
always 0.
---
 core/include/bertini2/endgames/powerseries.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/core/include/bertini2/endgames/powerseries.hpp b/core/include/bertini2/endgames/powerseries.hpp
index d43fdfa..3140637 100644
--- a/core/include/bertini2/endgames/powerseries.hpp
+++ b/core/include/bertini2/endgames/powerseries.hpp
@@ -695,6 +695,9 @@ public:
 
 		while (approx_error > this->FinalTolerance())
 		{
+	 		Precision(prev_approx, Precision(latest_approx));
+	 		prev_approx = latest_approx;
+
 	  		auto advance_code = AdvanceTime<CT>(target_time);
 	  		if (advance_code!=SuccessCode::Success)
 	 		{
@@ -728,11 +731,6 @@ public:
 	 			norm_of_dehom_of_prev_approx = norm_of_dehom_of_latest_approx;
 	 		}
 
-	 		
-
-
-	 		Precision(prev_approx, Precision(latest_approx));
-	 		prev_approx = latest_approx;
 		} //end while	
 
 		NotifyObservers(Converged<EmitterType>(*this));
-- 
2.43.0


From 636099a51c548ec426ba17b8e6aaacaff32bf286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:54 +0000
Subject: [PATCH 57/68] fix: SetFinalTolerance of the endgames compiles, and
 sets the final tolerance

---
 core/include/bertini2/endgames/base_endgame.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/include/bertini2/endgames/base_endgame.hpp b/core/include/bertini2/endgames/base_endgame.hpp
index 5eb9c6b..8f87710 100644
--- a/core/include/bertini2/endgames/base_endgame.hpp
+++ b/core/include/bertini2/endgames/base_endgame.hpp
@@ -254,7 +254,12 @@ public:
 	\brief Setter for the final tolerance.
 	*/
 	inline
-	void SetFinalTolerance(BRT const& ft){this->template Get<EndgameConfig>().final_tolerance = ft;}
+	void SetFinalTolerance(NumErrorT const& ft)
+	{
+		auto settings = this->EndgameSettings();
+		settings.final_tolerance = ft;
+		this->Set(settings);
+	}
 
 
 
-- 
2.43.0


From 690529e4eaa2ca864ab4716296ab245a3271182a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:49 +0000
Subject: [PATCH 58/68] fix: fixed precision trackers record the norm of the
 latest newton step

LatestNormOfStep() was never set by them, so the newton residual that a zero
dim solve reports was an uninitialised number.
---
 .../trackers/fixed_precision_tracker.hpp      |  3 +++
 .../bertini2/trackers/newton_corrector.hpp    | 23 ++++++++++++++++++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/core/include/bertini2/trackers/fixed_precision_tracker.hpp b/core/include/bertini2/trackers/fixed_precision_tracker.hpp
index 5b809cc..5cbaff6 100644
--- a/core/include/bertini2/trackers/fixed_precision_tracker.hpp
+++ b/core/include/bertini2/trackers/fixed_precision_tracker.hpp
@@ -330,6 +330,7 @@ namespace bertini{
 								CT const& current_time) const
 			{
 				return this->corrector_->Correct(corrected_space,
+												this->norm_delta_z_,
 												this->tracked_system_,
 												current_space,
 												current_time, 
@@ -356,6 +357,7 @@ namespace bertini{
 								Vec<CT> const& start_point, CT const& current_time) const
 			{
 				return this->corrector_->Correct(new_space,
+							   this->norm_delta_z_,
 							   this->tracked_system_,
 							   start_point,
 							   current_time, 
@@ -388,6 +390,7 @@ namespace bertini{
 								NumErrorT const& tolerance, unsigned max_iterations) const
 			{
 				return this->corrector_->Correct(new_space,
+							   this->norm_delta_z_,
 							   this->tracked_system_,
 							   start_point,
 							   current_time, 
diff --git a/core/include/bertini2/trackers/newton_corrector.hpp b/core/include/bertini2/trackers/newton_corrector.hpp
index f9168ff..8fc9b95 100644
--- a/core/include/bertini2/trackers/newton_corrector.hpp
+++ b/core/include/bertini2/trackers/newton_corrector.hpp
@@ -127,6 +127,7 @@ namespace bertini{
 				 \tparam ComplexType The complex type for arithmetic
 				 
 				 \param[out] next_space The computed next space point.
+				 \param[out] norm_delta_z The norm of the last newton step taken.
 				 \param S The system we are tracking on.
 				 \param current_space The base point for newton correcting.
 				 \param current_time The current time value.  Note it is complex.
@@ -139,6 +140,7 @@ namespace bertini{
 				
 				template <typename ComplexType>
 				SuccessCode Correct(Vec<ComplexType> & next_space,
+									   NumErrorT & norm_delta_z,
 									   System const& S,
 									   Vec<ComplexType> const& current_space, // pass by value to get a copy of it
 									   ComplexType const& current_time,
@@ -162,7 +164,9 @@ namespace bertini{
 						
 						next_space += step_ref;
 						
-						if ( (step_ref.template lpNorm<Eigen::Infinity>() < tracking_tolerance) && (ii+1 >= min_num_newton_iterations) )
+						norm_delta_z = NumErrorT(step_ref.template lpNorm<Eigen::Infinity>());
+
+						if ( (norm_delta_z < tracking_tolerance) && (ii+1 >= min_num_newton_iterations) )
 							return SuccessCode::Success;
 					}
 					
@@ -172,6 +176,23 @@ namespace bertini{
 
 				}
 
+
+				/**
+				 \brief Run Newton's method in fixed precision, when the norm of the last step is of no interest.
+				 */
+				template <typename ComplexType>
+				SuccessCode Correct(Vec<ComplexType> & next_space,
+									   System const& S,
+									   Vec<ComplexType> const& current_space,
+									   ComplexType const& current_time,
+									   NumErrorT const& tracking_tolerance,
+									   unsigned min_num_newton_iterations,
+									   unsigned max_num_newton_iterations)
+				{
+					NumErrorT norm_delta_z;
+					return Correct(next_space, norm_delta_z, S, current_space, current_time, tracking_tolerance, min_num_newton_iterations, max_num_newton_iterations);
+				}
+
 				
 				
 				
-- 
2.43.0


From 8b64ba00695c3803dd64424efefbf6cc3a68e237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:48 +0000
Subject: [PATCH 59/68] fix: an endgame that fails early does not report the
 results of an earlier run

Until a first approximation has been computed, the start point is the best
there is.  The final approximation was empty, making a zero dim solve throw,
or that of another path.
---
 core/include/bertini2/endgames/cauchy.hpp      | 2 ++
 core/include/bertini2/endgames/powerseries.hpp | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/core/include/bertini2/endgames/cauchy.hpp b/core/include/bertini2/endgames/cauchy.hpp
index 0af8bf2..b881fbd 100644
--- a/core/include/bertini2/endgames/cauchy.hpp
+++ b/core/include/bertini2/endgames/cauchy.hpp
@@ -1091,6 +1091,8 @@ public:
 		ClearTimesAndSamples<CT>(); //clear times and samples before we begin.
 		this->CycleNumber(0);
 		prev_approx = start_point;
+		latest_approx = start_point; // forget the results of any previous run
+		approx_error = 1;
 		
 		auto init_success = GetIntoEGZone(start_time, start_point, target_time);
 		if (init_success!= SuccessCode::Success)
diff --git a/core/include/bertini2/endgames/powerseries.hpp b/core/include/bertini2/endgames/powerseries.hpp
index 3140637..1c5e478 100644
--- a/core/include/bertini2/endgames/powerseries.hpp
+++ b/core/include/bertini2/endgames/powerseries.hpp
@@ -661,6 +661,11 @@ public:
 		Vec<CT>& latest_approx = this->final_approximation_;
 		Vec<CT>& prev_approx = this->previous_approximation_;
 
+		this->CycleNumber(0); // forget the results of any previous run
+		prev_approx = start_point;
+		latest_approx = start_point;
+		this->approximate_error_ = 1;
+
 		// this is for estimating a ... norm?
 		SetRandVec<CT>(start_point.size());	 	
 		
-- 
2.43.0


From 4f19c16b10a7baea750e2968a027ab048bece957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:48 +0000
Subject: [PATCH 60/68] fix: all solutions of a zero dim solve do not include
 those of paths which were not tracked to the end

For a path that failed before the endgame there is no solution, and the one
of an earlier solve was extracted instead, if there was one.
---
 core/include/bertini2/nag_algorithms/output.hpp         | 3 +++
 core/include/bertini2/nag_algorithms/zero_dim_solve.hpp | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/include/bertini2/nag_algorithms/output.hpp b/core/include/bertini2/nag_algorithms/output.hpp
index 5cd3062..360b550 100644
--- a/core/include/bertini2/nag_algorithms/output.hpp
+++ b/core/include/bertini2/nag_algorithms/output.hpp
@@ -272,6 +272,9 @@ struct AllSolutions
 		const auto n = s.size();
 		for (decltype(s.size()) ii{0}; ii<n; ++ii)
 		{
+			if (m[ii].endgame_success == SuccessCode::NeverStarted) // there is no solution
+				continue;
+
 			solns.push_back(sys.DehomogenizePoint(s[ii]));
 		}
 
diff --git a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
index 9d915a0..ac05498 100644
--- a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
+++ b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
@@ -576,7 +576,7 @@ std::ostream& operator<<(std::ostream & out, const EGBoundaryMetaData<NumT> & me
 
 				solution_final_metadata_.assign(num_as_size_t, SolutionMetaDataT()); // afresh, there may be results of an earlier solve
 				solutions_at_endgame_boundary_.resize(num_as_size_t);
-				solutions_post_endgame_.resize(num_as_size_t);
+				solutions_post_endgame_.assign(num_as_size_t, Vec<BaseComplexType>());
 
 				SetMidpathRetrackTol(this->template Get<Tolerances>().newton_before_endgame);
 			}
-- 
2.43.0


From 0f8781cfc8319f06889ccd9310ee61c7bd9e532f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:13 +0000
Subject: [PATCH 61/68] fix: the power series endgame does not take
 approximations that are not numbers for converged

---
 core/include/bertini2/endgames/powerseries.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/include/bertini2/endgames/powerseries.hpp b/core/include/bertini2/endgames/powerseries.hpp
index 1c5e478..9c5d9aa 100644
--- a/core/include/bertini2/endgames/powerseries.hpp
+++ b/core/include/bertini2/endgames/powerseries.hpp
@@ -722,6 +722,12 @@ public:
 	 		}
 
 	 		approx_error = static_cast<NumErrorT>((latest_approx - prev_approx).template lpNorm<Eigen::Infinity>());
+	 		if (std::isnan(approx_error)) // the sample times can no longer be told apart
+	 		{
+	 			NotifyObservers(EndgameFailure<EmitterType>(*this));
+	 			return SuccessCode::FailedToConverge;
+	 		}
+
 	 		NotifyObservers(ApproximatedRoot<EmitterType>(*this));
 
 
-- 
2.43.0


From dc285d9c7ea755bfab13302518f30c02dccdad28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:16 +0000
Subject: [PATCH 62/68] fix: algorithms made at run time use the endgame asked
 for

---
 core/include/bertini2/blackbox/switches_zerodim.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/include/bertini2/blackbox/switches_zerodim.hpp b/core/include/bertini2/blackbox/switches_zerodim.hpp
index c02f3f9..cecfbd4 100644
--- a/core/include/bertini2/blackbox/switches_zerodim.hpp
+++ b/core/include/bertini2/blackbox/switches_zerodim.hpp
@@ -69,14 +69,14 @@ template <typename StartType, typename TrackerType, typename EndgameType, typena
 std::unique_ptr<algorithm::AnyZeroDim> ZeroDimSpecifyShouldClone(std::true_type, ConstTs const& ...ts)
 {
 	return ZeroDimSpecifyComplete<StartType, TrackerType, 
-			typename endgame::EndgameSelector<TrackerType>::Cauchy, policy::CloneGiven>(ts...);
+			EndgameType, policy::CloneGiven>(ts...);
 }
 
 template <typename StartType, typename TrackerType, typename EndgameType, typename ... ConstTs>
 std::unique_ptr<algorithm::AnyZeroDim> ZeroDimSpecifyShouldClone(std::false_type, ConstTs const& ...ts)
 {
 	return ZeroDimSpecifyComplete<StartType, TrackerType, 
-			typename endgame::EndgameSelector<TrackerType>::Cauchy, policy::RefToGiven>(ts...);
+			EndgameType, policy::RefToGiven>(ts...);
 }
 
 
-- 
2.43.0


From 9dac8cb60e19984372a8080746beb9f4dc80a865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:16 +0000
Subject: [PATCH 63/68] fix: running a zero dim algorithm solves

---
 core/include/bertini2/nag_algorithms/zero_dim_solve.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
index ac05498..b36ab8c 100644
--- a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
+++ b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
@@ -315,7 +315,9 @@ std::ostream& operator<<(std::ostream & out, const EGBoundaryMetaData<NumT> & me
 			\brief Main Run() function provided for calling from the blackbox mode
 			*/
 			void Run() override
-			{}
+			{
+				Solve();
+			}
 
 			virtual ~ZeroDim() = default;
 /// setup functions
-- 
2.43.0


From 57f168ee3d77ac3df95748c86a451928d0345802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:04 +0000
Subject: [PATCH 64/68] fix: the range check of witness set points refuses the
 index one past the last

---
 core/include/bertini2/nag_datatypes/witness_set.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/include/bertini2/nag_datatypes/witness_set.hpp b/core/include/bertini2/nag_datatypes/witness_set.hpp
index a9a14b8..0da9f1f 100644
--- a/core/include/bertini2/nag_datatypes/witness_set.hpp
+++ b/core/include/bertini2/nag_datatypes/witness_set.hpp
@@ -159,10 +159,10 @@ public:
 			*/
 			const Vec<NumT>& GetPoint(IndexT ind) const
 			{
-				if (ind > Degree())
+				if (ind >= Degree())
 				{
 					std::stringstream ss;
-					ss << "asking for point of index " << ind << ", outside range [0,"<<Degree()-1 << "].";
+					ss << "asking for point of index " << ind << ", outside range [0,"<<Degree() << ").";
 					throw std::runtime_error(ss.str());
 				}
 
-- 
2.43.0


From 9e4da1ea03ef7e44853a307dc73cd912ec8a3c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:04 +0000
Subject: [PATCH 65/68] fix: consistency of witness sets of systems can be
 checked

---
 core/include/bertini2/nag_datatypes/witness_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/bertini2/nag_datatypes/witness_set.hpp b/core/include/bertini2/nag_datatypes/witness_set.hpp
index 0da9f1f..df6108e 100644
--- a/core/include/bertini2/nag_datatypes/witness_set.hpp
+++ b/core/include/bertini2/nag_datatypes/witness_set.hpp
@@ -226,7 +226,7 @@ public:
 			*/
 			bool IsConsistent() const
 			{
-				return (GetSystem().NumVariables() - GetSystem().NumFunctions()) == GetSlice().Dimension();
+				return (GetSystem().NumVariables() - GetSystem().NumTotalFunctions()) == GetSlice().Dimension();
 			}
 
 
-- 
2.43.0


From 39ba4af4ccece4851b1cc187b760485794509e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:04 +0000
Subject: [PATCH 66/68] fix: making an object in a pool does not make and leak
 another one

---
 core/include/bertini2/pool/pool.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/core/include/bertini2/pool/pool.hpp b/core/include/bertini2/pool/pool.hpp
index 82bc13a..b5f48e9 100644
--- a/core/include/bertini2/pool/pool.hpp
+++ b/core/include/bertini2/pool/pool.hpp
@@ -92,8 +92,6 @@ namespace bertini {
 		static
 		HeldType Make(Ts&& ...ts )
 		{
-			ObjT* obj = new ObjT(ts...);
-
 			// held_data_.push_back(PointerPolicy::DefaultConstructed());
 			auto thing = std::shared_ptr<ObjT>(new ObjT(ts...));
 			held_data_.push_back(thing);
-- 
2.43.0


From 08261075dbb2105f321d63a23007667dd132c1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:04 +0000
Subject: [PATCH 67/68] fix: purging a pool lets go of the objects no one else
 holds

---
 core/include/bertini2/pool/pool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/bertini2/pool/pool.hpp b/core/include/bertini2/pool/pool.hpp
index b5f48e9..f70c593 100644
--- a/core/include/bertini2/pool/pool.hpp
+++ b/core/include/bertini2/pool/pool.hpp
@@ -101,7 +101,7 @@ namespace bertini {
 		static
 		void PurgeCache()
 		{
-			std::remove_if(held_data_.begin(), held_data_.end(), [](HeldType const& h){return h.use_count()==1;});
+			held_data_.erase(std::remove_if(held_data_.begin(), held_data_.end(), [](HeldType const& h){return h.use_count()==1;}), held_data_.end());
 		}
 
 	private:
-- 
2.43.0


From 0ef70c989b6321d9c2c0f92d2db39ba08a96859f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:31 +0000
Subject: [PATCH 68/68] fix: settings are found by whole words, SliceFinalTol
 is not taken for FinalTol

---
 .../bertini2/io/parsing/settings_parsers/algorithm.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp b/core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp
index 2da3d8a..9760128 100644
--- a/core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp
+++ b/core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp
@@ -97,35 +97,35 @@ namespace bertini {
 					| (no_case[path_trunc_name] >> ':');
 					
 					newton_before_endgame_.name("newton_before_endgame_");
-					newton_before_endgame_ = *(char_ - all_names_) >> (no_case[newton_before_name] >> ':')
+					newton_before_endgame_ = no_setting_ >> (no_case[newton_before_name] >> ':')
 					>> mpfr_rules.number_string_[phx::bind( [this](T & num, std::string str)
 														   {
 															   num = bertini::NumTraits<T>::FromString(str);
 														   }, _val, _1 )] >> ';';
 					
 					newton_during_endgame_.name("newton_during_endgame_");
-					newton_during_endgame_ = *(char_ - all_names_) >> (no_case[newton_during_name] >>':')
+					newton_during_endgame_ = no_setting_ >> (no_case[newton_during_name] >>':')
 					>> mpfr_rules.number_string_[phx::bind( [this](T & num, std::string str)
 														   {
 															   num = bertini::NumTraits<T>::FromString(str);
 														   }, _val, _1 )] >> ';';
 					
 					final_tol_.name("final_tol_");
-					final_tol_ = *(char_ - all_names_) >> (no_case[final_tol_name] >> ':')
+					final_tol_ = no_setting_ >> (no_case[final_tol_name] >> ':')
 					>> mpfr_rules.number_string_[phx::bind( [this](T & num, std::string str)
 														   {
 															   num = bertini::NumTraits<T>::FromString(str);
 														   }, _val, _1 )] >> ';';
 					
 					path_trunc_threshold_.name("path_trunc_threshold_");
-					path_trunc_threshold_ = *(char_ - all_names_) >> (no_case[path_trunc_name] >> ':')
+					path_trunc_threshold_ = no_setting_ >> (no_case[path_trunc_name] >> ':')
 					>> mpfr_rules.number_string_[phx::bind( [this](T & num, std::string str)
 														   {
 															   num = bertini::NumTraits<T>::FromString(str);
 														   }, _val, _1 )] >> ';';
 					
 					no_setting_.name("no_setting_");
-					no_setting_ = *(char_ - all_names_);
+					no_setting_ = *( (lexeme[+qi::alnum] - all_names_) | (char_ - qi::alnum) ); // by whole words, finaltol occurs within slicefinaltol
 					
 					no_decl_.name("no_decl_");
 					no_decl_ = *(char_);
-- 
2.43.0

