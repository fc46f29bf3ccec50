From 7d3e69f170bcf86690567d73118e8cc9c5ee0b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:21 +0000
Subject: [PATCH 01/23] fix: explicit counterstrategy prevents the guarantee of
 the first entry covering a position

The guarantee counter was only moved past satisfied guarantees, so a run could stay
in positions where the entry for that guarantee makes no progress and satisfy every
liveness guarantee infinitely often.
---
 ...xtensionExtractExplicitCounterstrategy.hpp | 27 ++++++++++++-------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/extensionExtractExplicitCounterstrategy.hpp b/src/extensionExtractExplicitCounterstrategy.hpp
index 30163b5..a4b85a0 100644
--- a/src/extensionExtractExplicitCounterstrategy.hpp
+++ b/src/extensionExtractExplicitCounterstrategy.hpp
@@ -100,11 +100,16 @@ void computeAndPrintExplicitStateStrategy(std::ostream &outputStream) {
     
     // Prepare positional strategies for the individual goals
     std::vector<std::vector<BF> > positionalStrategiesForTheIndividualGoals(livenessAssumptions.size());
+    // For every assumption and position, the guarantee to be prevented from there on is the one of the first entry that
+    // covers the position, as the positions are found in the order of increasing distance from a final violation.
+    std::vector<std::vector<BF> > positionsForTheIndividualGoals(livenessAssumptions.size());
     for (unsigned int i=0;i<livenessAssumptions.size();i++) {
-        //BF casesCovered = mgr.constantFalse();
+        BF positionsCovered = mgr.constantFalse();
         std::vector<BF> strategy(livenessGuarantees.size()+1);
+        std::vector<BF> positions(livenessGuarantees.size()+1);
         for (unsigned int j=0;j<livenessGuarantees.size()+1;j++) {
             strategy[j] = mgr.constantFalse();
+            positions[j] = mgr.constantFalse();
         }
         for (auto it = strategyDumpingData.begin();it!=strategyDumpingData.end();it++) {
             if (boost::get<0>(*it) == i) {
@@ -112,9 +117,13 @@ void computeAndPrintExplicitStateStrategy(std::ostream &outputStream) {
                 //Essentially, the choice of which guarantee to pursue can be thought of as a system "move".
                 //The environment always to chooses that prevent the appropriate guarantee.
                 strategy[boost::get<1>(*it)] |= boost::get<2>(*it).UnivAbstract(varCubePostOutput) & !(strategy[boost::get<1>(*it)].ExistAbstract(varCubePost));
+                BF newPositions = strategy[boost::get<1>(*it)].ExistAbstract(varCubePost) & !positionsCovered;
+                positions[boost::get<1>(*it)] |= newPositions;
+                positionsCovered |= newPositions;
             }
         }
         positionalStrategiesForTheIndividualGoals[i] = strategy;
+        positionsForTheIndividualGoals[i] = positions;
     }
     
     // Prepare initial to-do list from the allowed initial states. Select a single initial input valuation.
@@ -124,11 +133,11 @@ void computeAndPrintExplicitStateStrategy(std::ostream &outputStream) {
     while (!(todoInit.isFalse())) {
         BF concreteState = determinize(todoInit,preVars);
         
-        //find which liveness guarantee is being prevented (finds the first liveness in order specified)
+        //find which liveness guarantee is being prevented
         // Note by Ruediger here: Removed "!livenessGuarantees[j]" as condition as it is non-positional
         unsigned int found_j_index = 0;
         for (unsigned int j=0;j<livenessGuarantees.size();j++) {
-            if (!(concreteState & positionalStrategiesForTheIndividualGoals[0][j]).isFalse()) {
+            if (!(concreteState & positionsForTheIndividualGoals[0][j]).isFalse()) {
                 found_j_index = j;
                 break;
             }
@@ -190,12 +199,6 @@ void computeAndPrintExplicitStateStrategy(std::ostream &outputStream) {
                     nextLivenessAssumption  = (nextLivenessAssumption + 1) % livenessAssumptions.size();
                     firstTry = false;
                 }
-                unsigned int nextLivenessGuarantee = current.second.second;
-                firstTry = true;
-                while (((nextLivenessGuarantee != current.second.second) | firstTry) && !((livenessGuarantees[nextLivenessGuarantee] & newCombination).isFalse())) {
-                    nextLivenessGuarantee  = (nextLivenessGuarantee + 1) % livenessGuarantees.size();
-                    firstTry = false;
-                }
 
                 //Mark which input has been captured by this case. Use the same input for other successors
                 remainingTransitions &= !newCombination;
@@ -203,6 +206,12 @@ void computeAndPrintExplicitStateStrategy(std::ostream &outputStream) {
                 // We don't need the pre information from the point onwards anymore.
                 newCombination = newCombination.ExistAbstract(varCubePre).SwapVariables(varVectorPre,varVectorPost);
 
+                // Find out which liveness guarantee is to be prevented from the successor position onwards
+                unsigned int nextLivenessGuarantee = 0;
+                while ((nextLivenessGuarantee < livenessGuarantees.size()-1) && (newCombination & positionsForTheIndividualGoals[nextLivenessAssumption][nextLivenessGuarantee]).isFalse()) {
+                    nextLivenessGuarantee++;
+                }
+
                 unsigned int tn;
 
                 std::pair<size_t, std::pair<unsigned int, unsigned int> > target;
-- 
2.43.0


From 627201be2fc542c9556a71e1abbedfa5f953408a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:21 +0000
Subject: [PATCH 02/23] fix: deadlock states of the counterstrategy are
 distinct from ordinary states

---
 src/extensionExtractExplicitCounterstrategy.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/extensionExtractExplicitCounterstrategy.hpp b/src/extensionExtractExplicitCounterstrategy.hpp
index a4b85a0..baf11cc 100644
--- a/src/extensionExtractExplicitCounterstrategy.hpp
+++ b/src/extensionExtractExplicitCounterstrategy.hpp
@@ -251,7 +251,8 @@ void computeAndPrintExplicitStateStrategy(std::ostream &outputStream) {
     
     newCombination  = (newCombination.ExistAbstract(varCubePostOutput).ExistAbstract(varCubePre)).SwapVariables(varVectorPre,varVectorPost);
     
-    std::pair<size_t, std::pair<unsigned int, unsigned int> > target = std::pair<size_t, std::pair<unsigned int, unsigned int> >(newCombination.getHashCode(),std::pair<unsigned int, unsigned int>(current.second.first, current.second.second));
+    // The goal number is shifted in the lookup key, as without output variables, the function for the input valuation may be the one of an ordinary state.
+    std::pair<size_t, std::pair<unsigned int, unsigned int> > target = std::pair<size_t, std::pair<unsigned int, unsigned int> >(newCombination.getHashCode(),std::pair<unsigned int, unsigned int>(current.second.first, current.second.second + livenessGuarantees.size()));
     unsigned int tn;
     
     if (lookupTableForPastStates.count(target)==0) {
-- 
2.43.0


From 5d51d85c9bb8691e1ce192a164fe800f07e37c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 03/23] fix: parser rejects empty memory buffers and references
 to elements not stored yet

'$ 0' read before the start of the buffer, a reference to a later element used an
uninitialised function (crash), and a huge element count exhausted the memory.
---
 src/synthesisContextBasics.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/synthesisContextBasics.cpp b/src/synthesisContextBasics.cpp
index d14ada0..abeb66e 100644
--- a/src/synthesisContextBasics.cpp
+++ b/src/synthesisContextBasics.cpp
@@ -43,9 +43,16 @@ BF GR1Context::parseBooleanFormulaRecurse(std::istringstream &is,std::set<Variab
             e << "Error reading line " << lineNumberCurrentlyRead << ". Expected number of memory elements.";
             throw e;
         }
-        std::vector<BF> memoryNew(nofElements);
+        if (nofElements==0) {
+            SlugsException e(false);
+            e << "Error reading line " << lineNumberCurrentlyRead << ". A memory buffer needs at least one element.";
+            throw e;
+        }
+        // The elements are added one by one, so that only those already stored can be recalled.
+        std::vector<BF> memoryNew;
         for (unsigned int i=0;i<nofElements;i++) {
-            memoryNew[i] = parseBooleanFormulaRecurse(is,allowedTypes,memoryNew);
+            BF element = parseBooleanFormulaRecurse(is,allowedTypes,memoryNew);
+            memoryNew.push_back(element);
         }
         return memoryNew[nofElements-1];
     }
-- 
2.43.0


From 6ed7626452947ff63405467419e9c30d5cbacd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:43 +0000
Subject: [PATCH 04/23] fix: an input file that cannot be read is an error, not
 an empty specification

---
 src/synthesisContextBasics.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/synthesisContextBasics.cpp b/src/synthesisContextBasics.cpp
index abeb66e..faa2509 100644
--- a/src/synthesisContextBasics.cpp
+++ b/src/synthesisContextBasics.cpp
@@ -224,6 +224,12 @@ void GR1Context::init(std::list<std::string> &filenames) {
         }
     }
 
+    if (inFile.bad()) {
+        std::ostringstream errorMessage;
+        errorMessage << "Cannot read input file '" << inFileName << "'";
+        throw errorMessage.str();
+    }
+
     // Check if variable names have been used twice
     std::set<std::string> variableNameSet(variableNames.begin(),variableNames.end());
     if (variableNameSet.size()!=variableNames.size()) throw SlugsException(false,"Error in input file: some variable name has been used twice!\nPlease keep in mind that for every variable used, a second one with the same name but with a \"'\" appended to it is automacically created.");
-- 
2.43.0


From 5fda8782c10d56f8800c2b1d3af66d5d8e30cf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 05/23] fix: literal filtering of the weakened safety
 assumptions looks at the other clauses and at the literals of the clause only

---
 src/extensionWeakenSafetyAssumptions.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/extensionWeakenSafetyAssumptions.hpp b/src/extensionWeakenSafetyAssumptions.hpp
index 95783e4..57e1430 100644
--- a/src/extensionWeakenSafetyAssumptions.hpp
+++ b/src/extensionWeakenSafetyAssumptions.hpp
@@ -117,9 +117,9 @@ public:
             for (auto it = clausesFoundSoFarInt.begin();it!=clausesFoundSoFarInt.end();it++) {
                 BF thisClauseBF = mgr.constantFalse();
                 for (unsigned int i=0;i<variables.size();i++) {
-                    if (thisClause[i]>0) {
+                    if ((*it)[i]>0) {
                         thisClauseBF |= variables[i];
-                    } else if (thisClause[i]<0) {
+                    } else if ((*it)[i]<0) {
                         thisClauseBF |= !variables[i];
                     }
                 }
@@ -139,6 +139,12 @@ public:
                     }
                 }
 
+                // Variables that do not occur in the clause do not contribute a literal
+                if (thisClause[i]==0) {
+                    filteredLiterals.push_back(0);
+                    continue;
+                }
+
                 // Check if this literal is needed
                 BF literal;
                 if (thisClause[i]>0) {
-- 
2.43.0


From 81aaa50a574111005d87594af74f2ae1dec80540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 06/23] fix: interleaving analysis initialises the flag that
 tells if some signal was found

---
 src/extensionInterleave.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensionInterleave.hpp b/src/extensionInterleave.hpp
index 004d9e4..0d44964 100644
--- a/src/extensionInterleave.hpp
+++ b/src/extensionInterleave.hpp
@@ -190,7 +190,7 @@ public:
             std::cout << "Starting point is a realizable specification.\n\n";
 
             // Try to "pre" Some variables
-            bool foundOne;
+            bool foundOne = false;
             for (unsigned int i=0;i<variables.size();i++) {
                 if (doesVariableInheritType(i,PreOutput)) {
                     variableTypes[i] = PreOutputBefore;
-- 
2.43.0


From a90a4b19328bd409e99c3fb8a916243000d2bade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 07/23] fix: interleaving analysis does not list an output that
 cannot be set before the inputs are read

---
 src/extensionInterleave.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/extensionInterleave.hpp b/src/extensionInterleave.hpp
index 0d44964..7583099 100644
--- a/src/extensionInterleave.hpp
+++ b/src/extensionInterleave.hpp
@@ -201,6 +201,7 @@ public:
                     if (!realizable) {
                         variableTypes[i] = PreOutputAfter;
                         variableTypes[i+1] = PostOutputAfter;
+                        computeVariableInformation();
                     } else {
                         foundOne = true;
                     }
-- 
2.43.0


From 592ab03251835ce5c60b1cdb7ceaa298f2ad5bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 08/23] fix: assumption analysis keeps the safety assumptions
 while a liveness assumption is left out

---
 src/extensionAnalyzeAssumptions.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/extensionAnalyzeAssumptions.hpp b/src/extensionAnalyzeAssumptions.hpp
index f9941e9..60ad5f6 100644
--- a/src/extensionAnalyzeAssumptions.hpp
+++ b/src/extensionAnalyzeAssumptions.hpp
@@ -376,7 +376,6 @@ protected:
 
             //if (i==1) throw "Aaargh!";
 
-            safetyEnv = mgr.constantTrue();
             livenessAssumptions.clear();
             for (unsigned int j=0;j<oldLivenessAssumptions.size();j++) {
                 if (i!=j) livenessAssumptions.push_back(oldLivenessAssumptions[j]);
-- 
2.43.0


From 795cc2321c90a5b708e098e916514fded01031a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 09/23] fix: assumption analysis solves the game correctly when
 the only liveness assumption is left out

---
 src/extensionAnalyzeAssumptions.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/extensionAnalyzeAssumptions.hpp b/src/extensionAnalyzeAssumptions.hpp
index 60ad5f6..9de6142 100644
--- a/src/extensionAnalyzeAssumptions.hpp
+++ b/src/extensionAnalyzeAssumptions.hpp
@@ -380,6 +380,8 @@ protected:
             for (unsigned int j=0;j<oldLivenessAssumptions.size();j++) {
                 if (i!=j) livenessAssumptions.push_back(oldLivenessAssumptions[j]);
             }
+            // The synthesis algorithm needs at least one liveness assumption
+            if (livenessAssumptions.size()==0) livenessAssumptions.push_back(mgr.constantTrue());
             std::cout << "\"" << livenessEnvPartNames.at(i) << "\" ";
 
             std::vector<std::vector<BF> > newDistances;
-- 
2.43.0


From c864d359be94b57c423b491fa81d65904a26ccf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:34 +0000
Subject: [PATCH 10/23] fix: count of losing initial inputs is a number when
 the variable limits mention outputs

---
 src/extensionAnalyzeInitialPositions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensionAnalyzeInitialPositions.hpp b/src/extensionAnalyzeInitialPositions.hpp
index fe0cad2..53f3216 100644
--- a/src/extensionAnalyzeInitialPositions.hpp
+++ b/src/extensionAnalyzeInitialPositions.hpp
@@ -210,7 +210,7 @@ public:
         double nofWPosAG = (initEnv & initSys & winningPositions & variableLimits).getNofSatisfyingAssignments(varCubePre);
 
         double nofInputs = variableLimits.ExistAbstract(varCubePreOutput).getNofSatisfyingAssignments(varCubePreInput);
-        double nofInputsSystemLosing = (initEnv & variableLimits & !((winningPositions & initSys).ExistAbstract(varCubePreOutput))).getNofSatisfyingAssignments(varCubePreInput);
+        double nofInputsSystemLosing = (initEnv & variableLimits.ExistAbstract(varCubePreOutput) & !((winningPositions & initSys).ExistAbstract(varCubePreOutput))).getNofSatisfyingAssignments(varCubePreInput);
         double nofAllowedInitialInputs = (initEnv & variableLimits.ExistAbstract(varCubePreOutput)).getNofSatisfyingAssignments(varCubePreInput);
 
         std::cout << "Number of winning positions: " << nofWPos << " out of " << nofPos << std::endl;
-- 
2.43.0


From 9f9050995d0ded01af052654a95eea61468e25bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:07 +0000
Subject: [PATCH 11/23] fix: interactive mode restarts with the first goal
 after XGETINIT, as its answer says

---
 src/extensionInteractiveStrategy.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index 9c56b3a..63cd0b1 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -584,6 +584,7 @@ public:
                 }
                 std::cout << ",0" << std::endl; // Flushes, too.
                 currentPosition = initialPosition;
+                currentLivenessGuarantee = 0;
             } else if (command=="XCOMPLETEINIT") {
 
                 // This command takes a set of forced values and completes it such that
-- 
2.43.0


From 3beb7bf6156a56910d533ad7ef3393fcdbf4e9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:07 +0000
Subject: [PATCH 12/23] fix: interactive mode keeps answering after a malformed
 number

---
 src/extensionInteractiveStrategy.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index 63cd0b1..eb7522c 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -145,6 +145,8 @@ public:
             std::cout.flush();
             std::string command = "";
             while (command=="") {
+                // A malformed number leaves the input stream in the failed state (with the rest of the line unread)
+                if (std::cin.fail() && !std::cin.eof()) std::cin.clear();
                 std::getline(std::cin,command);
                 if (std::cin.eof()) return;
             }
-- 
2.43.0


From 8dec8a47efac2256f9e81a79370d75fc5f8a0b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:07 +0000
Subject: [PATCH 13/23] fix: MOVE in the interactive mode keeps input values
 greater than 1 in the successor position

---
 src/extensionInteractiveStrategy.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index eb7522c..58765ef 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -341,6 +341,7 @@ public:
                                     } else {
                                         std::cout << "    -> Value != 0 or 1. Assuming 1.\n";
                                         to &= variables[i];
+                                        nextPosition &= variables[i];
                                     }
                                 }
                             }
-- 
2.43.0


From ae3434cf693d16b9d6366ad39000fa97e67836c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:07 +0000
Subject: [PATCH 14/23] fix: requests of the interactive mode that need a
 system strategy read outside the strategy vector for unrealizable
 specifications

---
 src/extensionInteractiveStrategy.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index 58765ef..bcb503d 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -262,7 +262,7 @@ public:
                 // Analyse if it is part of a possible strategy
                 std::cout << "- The transition is a possible transition in a strategy for the following goals: ";
                 foundOne = false;
-                for (unsigned int i=0;i<livenessGuarantees.size();i++) {
+                for (unsigned int i=0;i<positionalStrategiesForTheIndividualGoals.size();i++) {
                     if (!(positionalStrategiesForTheIndividualGoals[i] & from & to).isFalse()) {
                         if (foundOne) std::cout << ", ";
                         foundOne = true;
@@ -299,7 +299,9 @@ public:
                 currentPosition = from;
             } else if (command=="MOVE") {
 
-                if (currentPosition == mgr.constantFalse()) {
+                if (!realizable) {
+                    std::cout << "Error: MOVE is only supported for realizable specifications" << std::endl;
+                } else if (currentPosition == mgr.constantFalse()) {
                     std::cout << "Error: The current position is undefined. Use SETPOS prior to calling MOVE." << std::endl;
                 } else {
 
@@ -487,6 +489,7 @@ public:
                 std::cout.flush();
             } else if (command=="XMAKETRANSRANDOM") {
                 std::cout << "\n"; // Get rid of the prompt
+                if (!realizable) throw "Error: XMAKETRANSRANDOM is only supported for realizable specifications";
                 BF postInput = mgr.constantTrue();
                 for (unsigned int i=0;i<variables.size();i++) {
                     if (doesVariableInheritType(i,PostInput)) {
-- 
2.43.0


From 9aa8c2bef15a56433a02bdd76a62940a9c2a8f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:07 +0000
Subject: [PATCH 15/23] fix: XSTRATEGYTRANSITION rejects numbers of liveness
 properties that do not exist

---
 src/extensionInteractiveStrategy.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index bcb503d..f92463f 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -868,7 +868,9 @@ public:
                 //   finite time correctly.
                 BF allSoFar = startingPoint & safetyEnv & forced;
 
-                if (allSoFar.isFalse()) {
+                if (std::cin.fail() || (livenessAssumption>=livenessAssumptions.size()) || (livenessGuarantee>=livenessGuarantees.size())) {
+                    std::cout << "ERROR: No such liveness assumption or guarantee" << std::endl;
+                } else if (allSoFar.isFalse()) {
                     std::cout << "FAILASSUMPTIONS" << std::endl;
                 } else {
 
-- 
2.43.0


From b4dce2ffa929623b1b05cf91ae68ed7a982a1b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:07 +0000
Subject: [PATCH 16/23] fix: STARTPOS and XGETINIT report that there is no
 initial position instead of inventing one

---
 src/extensionInteractiveStrategy.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index f92463f..9af4706 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -159,7 +159,10 @@ public:
                 return;
             } else if (command=="STARTPOS") {
                 BF initialPosition = winningPositions & initEnv & initSys;
-                assert(!(initialPosition.isFalse()));
+                if (initialPosition.isFalse()) {
+                    std::cout << "Error: There is no initial position that is winning.\n";
+                    continue;
+                }
                 initialPosition = determinize(initialPosition,preVars);
                 for (unsigned int i=0;i<variables.size();i++) {
                     if (doesVariableInheritType(i, Pre)) {
@@ -569,6 +572,10 @@ public:
             } else if (command=="XGETINIT") {
                 std::cout << "\n"; // Get rid of the prompt
                 BF initialPosition = winningPositions & initEnv & initSys;
+                if (initialPosition.isFalse()) {
+                    std::cout << "ERROR" << std::endl;
+                    continue;
+                }
                 initialPosition = determinize(initialPosition,preVars);
                 for (unsigned int i=0;i<variables.size();i++) {
                     if (doesVariableInheritType(i,PreInput)) {
-- 
2.43.0


From 94b3e40e9373ab9a7eecad14cdf168728dd97ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:03 +0000
Subject: [PATCH 17/23] fix: XSTRATEGYTRANSITION advances the goal also when
 the move is the only goal transition

---
 src/extensionInteractiveStrategy.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index 9af4706..9546155 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -1068,8 +1068,8 @@ public:
                             std::cout << std::endl;
 
                             // Print new assumption and guarantee goal counters
-                            if (allSoFar < livenessAssumptions[livenessAssumption]) livenessAssumption++;
-                            if (allSoFar < livenessGuarantees[livenessGuarantee]) livenessGuarantee++;
+                            if (allSoFar <= livenessAssumptions[livenessAssumption]) livenessAssumption++;
+                            if (allSoFar <= livenessGuarantees[livenessGuarantee]) livenessGuarantee++;
                             std::cout << livenessAssumption % livenessAssumptions.size() << std::endl;
                             std::cout << livenessGuarantee % livenessGuarantees.size() << std::endl;
 
-- 
2.43.0


From 727fa53f30968a4246b5eae5827f3fa745b14779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:41 +0000
Subject: [PATCH 18/23] fix: with an output file given, --counterStrategy took
 the specification for the output file (and crashed without any file name)

---
 src/extensionExtractExplicitCounterstrategy.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/extensionExtractExplicitCounterstrategy.hpp b/src/extensionExtractExplicitCounterstrategy.hpp
index baf11cc..e6778ea 100644
--- a/src/extensionExtractExplicitCounterstrategy.hpp
+++ b/src/extensionExtractExplicitCounterstrategy.hpp
@@ -41,8 +41,13 @@ protected:
     using T::postOutputVars;
     using T::doesVariableInheritType;
 
-    XExtractExplicitCounterStrategy<T>(std::list<std::string> &filenames) : T(filenames) {
-        if (filenames.size()==1) {
+    XExtractExplicitCounterStrategy<T>(std::list<std::string> &filenames) : T(filenames) {}
+
+public:
+
+    void init(std::list<std::string> &filenames) {
+        T::init(filenames);
+        if (filenames.size()==0) {
             outputFilename = "";
         } else {
             outputFilename = filenames.front();
@@ -50,8 +55,6 @@ protected:
         }
     }
 
-public:
-
 /**
  * @brief Compute and print out (to stdout) an explicit-state counter strategy that is winning for
  *        the environment. The output is compatible with the old JTLV output of LTLMoP.
-- 
2.43.0


From 72696b00c34444ef3f3d09b31acd456cc3a513ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:41 +0000
Subject: [PATCH 19/23] fix: an input file that cannot be read is an error also
 for the modes that read their input themselves

---
 src/extensionAnalyzeAssumptions.hpp                      | 2 ++
 src/extensionAnalyzeInitialPositions.hpp                 | 2 ++
 src/extensionIROSfastslow.hpp                            | 2 ++
 src/extensionIncompleteInformationEstimatorSynthesis.hpp | 2 ++
 src/extensionNondeterministicMotion.hpp                  | 2 ++
 5 files changed, 10 insertions(+)

diff --git a/src/extensionAnalyzeAssumptions.hpp b/src/extensionAnalyzeAssumptions.hpp
index 9de6142..2e2dfa3 100644
--- a/src/extensionAnalyzeAssumptions.hpp
+++ b/src/extensionAnalyzeAssumptions.hpp
@@ -162,6 +162,8 @@ protected:
             }
         }
 
+        if (inFile.bad()) throw "Error: Cannot read input file";
+
         // Check if variable names have been used twice
         std::set<std::string> variableNameSet(variableNames.begin(),variableNames.end());
         if (variableNameSet.size()!=variableNames.size()) throw SlugsException(false,"Error in input file: some variable name has been used twice!\nPlease keep in mind that for every variable used, a second one with the same name but with a \"'\" appended to it is automacically created.");
diff --git a/src/extensionAnalyzeInitialPositions.hpp b/src/extensionAnalyzeInitialPositions.hpp
index 53f3216..f59a0b7 100644
--- a/src/extensionAnalyzeInitialPositions.hpp
+++ b/src/extensionAnalyzeInitialPositions.hpp
@@ -360,6 +360,8 @@ public:
             }
         }
 
+        if (inFile.bad()) throw "Error: Cannot read input file";
+
         // Check if variable names have been used twice
         std::set<std::string> variableNameSet(variableNames.begin(),variableNames.end());
         if (variableNameSet.size()!=variableNames.size()) throw SlugsException(false,"Error in input file: some variable name has been used twice!\nPlease keep in mind that for every variable used, a second one with the same name but with a \"'\" appended to it is automacically created.");
diff --git a/src/extensionIROSfastslow.hpp b/src/extensionIROSfastslow.hpp
index 50b81ad..ea13229 100644
--- a/src/extensionIROSfastslow.hpp
+++ b/src/extensionIROSfastslow.hpp
@@ -190,6 +190,8 @@ void init(std::list<std::string> &filenames) {
         }
     }
 
+    if (inFile.bad()) throw "Error: Cannot read input file";
+
     // Check if variable names have been used twice
     std::set<std::string> variableNameSet(variableNames.begin(),variableNames.end());
     if (variableNameSet.size()!=variableNames.size()) throw SlugsException(false,"Error in input file: some variable name has been used twice!\nPlease keep in mind that for every variable used, a second one with the same name but with a \"'\" appended to it is automacically created.");
diff --git a/src/extensionIncompleteInformationEstimatorSynthesis.hpp b/src/extensionIncompleteInformationEstimatorSynthesis.hpp
index f3bccec..42c66a4 100644
--- a/src/extensionIncompleteInformationEstimatorSynthesis.hpp
+++ b/src/extensionIncompleteInformationEstimatorSynthesis.hpp
@@ -146,6 +146,8 @@ protected:
             }
         }
 
+        if (inFile.bad()) throw "Error: Cannot read input file";
+
         // Check if variable names have been used twice
         std::set<std::string> variableNameSet(variableNames.begin(),variableNames.end());
         if (variableNameSet.size()!=variableNames.size()) throw SlugsException(false,"Error in input file: some variable name has been used twice!\nPlease keep in mind that for every variable used, a second one with the same name but with a \"'\" appended to it is automacically created.");
diff --git a/src/extensionNondeterministicMotion.hpp b/src/extensionNondeterministicMotion.hpp
index 1e4cb03..3d04da7 100644
--- a/src/extensionNondeterministicMotion.hpp
+++ b/src/extensionNondeterministicMotion.hpp
@@ -329,6 +329,8 @@ public:
             }
         }
 
+        if (inFile.bad()) throw "Error: Cannot read input file";
+
         std::vector<BF> varsBDDread;
         // Invert all order to get the least significant bit first
         for (int i=variables.size()-1;i>=0;i--) {
-- 
2.43.0


From 9f570fa267a5e6a982341a5a356b2c78c7d350f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:23 +0000
Subject: [PATCH 20/23] fix: an error while reading or writing a BDD file ends
 with an error message instead of an abort

---
 src/main.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index 792b039..56eca8c 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -370,6 +370,9 @@ int main(int argc, const char **args) {
     } catch (BFDumpDotException e) {
         std::cerr << "Error: " << e.getMessage() << std::endl;
         return 1;
+    } catch (std::exception &e) {
+        std::cerr << "Error: " << e.what() << std::endl;
+        return 1;
     }
 
 }
-- 
2.43.0


From 833cee35476c89ea9232d1bb45bb0abe6fc63117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:32 +0000
Subject: [PATCH 21/23] fix: the structured-specification compiler dropped
 lines starting with '[' that are not section names

---
 tools/StructuredSlugsParser/compiler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/StructuredSlugsParser/compiler.py b/tools/StructuredSlugsParser/compiler.py
index e8d3f6b..86f3d77 100755
--- a/tools/StructuredSlugsParser/compiler.py
+++ b/tools/StructuredSlugsParser/compiler.py
@@ -491,8 +491,9 @@ def performConversion(inputFile,thoroughly):
         line = line.strip()
         if line.startswith("["):
             mode = line
-            # if not mode in lines:
-            #    lines[mode] = []
+            if not mode in lines:
+                print("Error: unknown section '"+line+"'",file=sys.stderr)
+                raise Exception("Failed to translate file.")
         else:
             if mode=="" and line.startswith("#"):
                 # Initial comments
-- 
2.43.0


From 8dea8b9baa3d08c2cfb77247209b3334895bf21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:32 +0000
Subject: [PATCH 22/23] fix: the structured-specification compiler did not
 terminate for variables with a negative minimal value

---
 tools/StructuredSlugsParser/compiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/StructuredSlugsParser/compiler.py b/tools/StructuredSlugsParser/compiler.py
index 86f3d77..c692e11 100755
--- a/tools/StructuredSlugsParser/compiler.py
+++ b/tools/StructuredSlugsParser/compiler.py
@@ -272,6 +272,8 @@ def recurseCalculationSubformula(tree,memoryStructureParts, isPrimed):
     # Parse Numeral
     elif (tree[0]=="numeral"): 
         parameter = int(tree[1])
+        if parameter < 0:
+            raise Exception("Negative numbers are currently unsupported, but needed for: "+tree[1])
         result = []
         while parameter != 0:
             if (parameter % 2)==1:
-- 
2.43.0


From 3e5fd824a2068b2840f2a906ecbba1d7d3ccadb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:32 +0000
Subject: [PATCH 23/23] fix: the structured-specification compiler rejected the
 documented exclusive or

---
 tools/StructuredSlugsParser/compiler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/StructuredSlugsParser/compiler.py b/tools/StructuredSlugsParser/compiler.py
index c692e11..4517a03 100755
--- a/tools/StructuredSlugsParser/compiler.py
+++ b/tools/StructuredSlugsParser/compiler.py
@@ -414,6 +414,11 @@ def parseSimpleFormula(tree, isPrimed):
         for a in tree[2:]:
             ret = ["|"]+ret+parseSimpleFormula(a,isPrimed)
         return ret
+    if (tree[0]=="Xor"):
+        ret = parseSimpleFormula(tree[1],isPrimed)
+        for a in tree[2:]:
+            ret = ["^"]+ret+parseSimpleFormula(a,isPrimed)
+        return ret
     if (tree[0]=="UnaryFormula"):
         if tree[1][0]=="NotOperator":
             return ["!"]+parseSimpleFormula(tree[2],isPrimed)
-- 
2.43.0

