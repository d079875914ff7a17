From edce1203281704acebe632f9438c634f6b112778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:42 +0000
Subject: [PATCH 01/26] fix: learnClause falls off its end without returning
 the clause

---
 bitvec/Formula.cc | 2 ++
 src/Formula.cc    | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index 7d23ad9..2d6c2a1 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -369,6 +369,8 @@ Clause* Formula::learnClause ( Clause * clause ) {
 			VARLIST[i] -> VSIDS_SCORE[j] /=2;
 		}
 	}
+
+	return clause;
 }
 
 // Corresponding functions for watched literals version of the algorithm:
diff --git a/src/Formula.cc b/src/Formula.cc
index 289c321..c61f55a 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -832,6 +832,8 @@ Clause* Formula::learnClause ( Clause * clause ) {
 			}
 		}
 	}
+
+	return clause;
 }
 
 int Formula::backtrackLevel ( Clause * learnedClause ) {
-- 
2.43.0


From 23f74149ea780c59d153503ff77a399ddd257702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 02/26] fix: a literal repeated in a clause breaks unit
 detection and watched literals

---
 src/Formula.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Formula.cc b/src/Formula.cc
index c61f55a..2ba002e 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -140,7 +140,8 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 					if(ch == '!')
 						sscanf(word_buffer, "%d %c %c %d", &var, &ch, &ch1, &val);
 					//checking if variable = 0 i.e end of line
-					if(var != 0)
+					//a literal written more than once in a clause counts once
+					if(var != 0 && !hasAtom(temp_clause, Literal(var, ch, val)))
 					{
 						//add it to clause_list's atom_list
 						temp_atom = Literal(var, ch, val);
-- 
2.43.0


From e6f575e13a1beb347b1b4ca0ef325f3f1483e7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 03/26] fix: an empty clause is ignored or read out of bounds
 instead of making the problem UNSAT

---
 bitvec/Formula.cc | 16 +++++++++++++---
 src/Formula.cc    |  8 +++++++-
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index 2d6c2a1..2671e84 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -167,6 +167,12 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 			}while(*lp);
 			CLAUSELIST.push_back(temp_clause);
 
+			// an empty clause cannot be satisfied
+			if (temp_clause->ATOM_LIST.size() == 0) {
+				CONFLICT = true;
+				CONFLICTINGCLAUSE = clause_num;
+			}
+
 			for (int i=0;i<temp_clause->ATOM_LIST.size();i++) {
 				Literal lit = temp_clause->ATOM_LIST[i];
 				for (int j=0;j<VARLIST[lit.VAR]->DOMAINSIZE;j++) {
@@ -184,9 +190,13 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 
 
 
-			Literal watched1 = temp_clause -> ATOM_LIST[0];
-			temp_clause -> WATCHED[0] = watched1;
-			VARLIST[watched1.VAR]->addRecord(clause_num);
+			if ( temp_clause -> ATOM_LIST.size() > 0 ) {
+
+				Literal watched1 = temp_clause -> ATOM_LIST[0];
+				temp_clause -> WATCHED[0] = watched1;
+				VARLIST[watched1.VAR]->addRecord(clause_num);
+
+			}
 
 			if ( temp_clause -> ATOM_LIST.size() > 1 ) {
 
diff --git a/src/Formula.cc b/src/Formula.cc
index 2ba002e..84c8594 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -181,6 +181,12 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 			}while(*lp);
 			CLAUSELIST.push_back(temp_clause);
 
+			// an empty clause cannot be satisfied
+			if (temp_clause->ATOM_LIST.size() == 0) {
+				CONFLICT = true;
+				CONFLICTINGCLAUSE = clause_num;
+			}
+
 			if (temp_clause->ATOM_LIST.size() == 1) {
 				UNITLIST.push_back(clause_num);
 			}
@@ -188,7 +194,7 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 			// with watched literals option, assign first two literals in the clause to watched1 and watched2
 
 
-			if ( WATCH ) {
+			if ( WATCH && temp_clause -> ATOM_LIST.size() > 0 ) {
 
 				Literal watched1 = temp_clause -> ATOM_LIST[0];
 				temp_clause -> WATCHED[0] = watched1;
-- 
2.43.0


From 37ff36489235c090482a78baf197ba2e37909af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 04/26] fix: a variable with a single value can end up with no
 value at all

---
 bitvec/Formula.cc |  6 ++++--
 src/Formula.cc    | 12 ++++++++++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index 2671e84..51ae1ab 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -152,9 +152,11 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 							vals.reset(val);
 						}
 
-						//add it to clause_list's atom_list
+						//add it to clause_list's atom_list, unless no value
+						//of the variable satisfies it
 						temp_atom = Literal(var, vals);
-						temp_clause->addAtom(temp_atom);
+						if (vals.any())
+							temp_clause->addAtom(temp_atom);
 
 						//increment the index representing value so that
 						//we can keep track of number of occurrences of each
diff --git a/src/Formula.cc b/src/Formula.cc
index 84c8594..b6a0629 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -217,6 +217,18 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 
 	//closing file
 	infile.close();
+
+	// a variable with only one value in its domain has that value from the start
+	for ( int i = 1; i < (int) VARLIST.size() && ! CONFLICT; i++ ) {
+		if ( VARLIST[i] -> DOMAINSIZE == 1 ) {
+			if ( LOG ) cout << "Entailment... " << i << "=0" << endl;
+			ENTAILS++;
+			UNITCLAUSE = -2;
+			if ( WATCH ) watchedReduceTheory ( Literal ( i, true, 0 ) );
+			else reduceTheory ( i, true, 0 );
+		}
+	}
+
 	TIME_E = GetTime();
 }
 
-- 
2.43.0


From ac1bae66ec1a524ab17c08d2c6900982126e07b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 05/26] fix: reading stops silently at the first line of 3000
 or more characters

---
 bitvec/Formula.cc      | 8 +++++---
 src/Boolean2Finite.cc  | 8 +++++---
 src/Formula.cc         | 8 +++++---
 src/LinearEncode.cc    | 8 +++++---
 src/QuadraticEncode.cc | 8 +++++---
 5 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index 51ae1ab..b6a7de2 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -61,8 +61,7 @@ Formula::Formula ( CommandLine * cline ) {
 void Formula::BuildFormula ( CommandLine* cline ) {
 	//local variables
 	ifstream infile;
-	char line_buffer[3000];
-	char word_buffer[3000];
+	string line;
 	int clause_num = 0;
 	int atom_num = 0;
 	int var, val;
@@ -91,8 +90,9 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 
 	//now reading each line from the infile and if needed to convert
 	//then converting it and writing to outfile or just writing directly
-	while(infile.getline(line_buffer, 3000))
+	while(getline(infile, line))
 	{
+		char * line_buffer = &line[0];
 		temp_clause = new Clause(cline->CLAUSE_SIZE);
 		//if line is comment - just write
 		if(line_buffer[0] == 'c')
@@ -120,6 +120,8 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 		//else its clause lines
 		else
 		{
+			vector<char> word(line.size() + 1);
+			char * word_buffer = &word[0];
 			char * lp = line_buffer;
 			do
 			{
diff --git a/src/Boolean2Finite.cc b/src/Boolean2Finite.cc
index 89aef7b..212b73a 100644
--- a/src/Boolean2Finite.cc
+++ b/src/Boolean2Finite.cc
@@ -16,8 +16,7 @@ void Boolean2Finite(CommandLine * cline)
   //local variables
   ifstream infile;
   ofstream outfile;
-  char line_buffer[MAX_LINE];
-  char word_buffer[MAX_LINE];
+  string line;
   int line_num = 0;
   int variable = 0;
   set<int> variables;
@@ -47,8 +46,9 @@ void Boolean2Finite(CommandLine * cline)
 
   //now reading each line from the infile and if needed to convert
   //then converting it and writing to outfile or just writing directly
-  while(infile.getline(line_buffer, MAX_LINE))
+  while(getline(infile, line))
     {
+      char * line_buffer = &line[0];
       ++line_num;
       //if line is comment - just write
       if(line_buffer[0] == 'c')
@@ -65,6 +65,8 @@ void Boolean2Finite(CommandLine * cline)
       //else its variables
       else
 	{
+	  vector<char> word(line.size() + 1);
+	  char * word_buffer = &word[0];
 	  char * lp = line_buffer;
 	  vector <int> temp;
 	  do
diff --git a/src/Formula.cc b/src/Formula.cc
index b6a0629..a513db5 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -63,8 +63,7 @@ Formula::Formula ( CommandLine * cline ) {
 void Formula::BuildFormula ( CommandLine* cline ) {
 	//local variables
 	ifstream infile;
-	char line_buffer[3000];
-	char word_buffer[3000];
+	string line;
 	int clause_num = 0;
 	int atom_num = 0;
 	int var, val;
@@ -93,8 +92,9 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 
 	//now reading each line from the infile and if needed to convert
 	//then converting it and writing to outfile or just writing directly
-	while(infile.getline(line_buffer, 3000))
+	while(getline(infile, line))
 	{
+		char * line_buffer = &line[0];
 		temp_clause = new Clause(cline->CLAUSE_SIZE);
 		//if line is comment - just write
 		if(line_buffer[0] == 'c')
@@ -118,6 +118,8 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 		//else its clause lines
 		else
 		{
+			vector<char> word(line.size() + 1);
+			char * word_buffer = &word[0];
 			char * lp = line_buffer;
 			do
 			{
diff --git a/src/LinearEncode.cc b/src/LinearEncode.cc
index cede5b9..047ae7b 100644
--- a/src/LinearEncode.cc
+++ b/src/LinearEncode.cc
@@ -19,8 +19,7 @@ void LinearEncode(CommandLine * cline)
   //local variables
   ifstream infile;
   ofstream outfile;
-  char line_buffer[3000];
-  char word_buffer[3000];
+  string line;
   int num_clause = 0;
   int num_var = 0;
   int new_num_clause = 0;
@@ -57,8 +56,9 @@ void LinearEncode(CommandLine * cline)
 
   //now reading each line from the infile and if needed to convert
   //then converting it and writing to outfile or just writing directly
-  while(infile.getline(line_buffer, 3000))
+  while(getline(infile, line))
     {
+      char * line_buffer = &line[0];
       //if line is comment - just write
       if(line_buffer[0] == 'c')
 	{
@@ -143,6 +143,8 @@ void LinearEncode(CommandLine * cline)
 		}
 	    }
 
+	  vector<char> word(line.size() + 1);
+	  char * word_buffer = &word[0];
 	  char * lp = line_buffer;
 	  do
 	    {
diff --git a/src/QuadraticEncode.cc b/src/QuadraticEncode.cc
index 27e539c..bfacb30 100644
--- a/src/QuadraticEncode.cc
+++ b/src/QuadraticEncode.cc
@@ -27,8 +27,7 @@ void QuadraticEncode(CommandLine * cline)
   //local variables
   ifstream infile;
   ofstream outfile;
-  char line_buffer[3000];
-  char word_buffer[3000];
+  string line;
   int num_clause = 0;
   int num_var = 0;
   int var, val;
@@ -63,8 +62,9 @@ void QuadraticEncode(CommandLine * cline)
 
   //now reading each line from the infile and if needed to convert
   //then converting it and writing to outfile or just writing directly
-  while(infile.getline(line_buffer, 3000))
+  while(getline(infile, line))
     {
+      char * line_buffer = &line[0];
       //if line is comment - just write
       if(line_buffer[0] == 'c')
 	{
@@ -112,6 +112,8 @@ void QuadraticEncode(CommandLine * cline)
 		    }
 		}
 	    }
+	  vector<char> word(line.size() + 1);
+	  char * word_buffer = &word[0];
 	  char * lp = line_buffer;
 	  do
 	    {
-- 
2.43.0


From 88a9d032c7209eb073b9545a28c04d377fd0f286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 06/26] fix: a blank line is read as an empty clause

---
 bitvec/Formula.cc      | 6 ++++++
 src/Boolean2Finite.cc  | 6 ++++++
 src/Formula.cc         | 6 ++++++
 src/LinearEncode.cc    | 6 ++++++
 src/QuadraticEncode.cc | 6 ++++++
 5 files changed, 30 insertions(+)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index b6a7de2..c16e22a 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -117,6 +117,12 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 				cout << "Error: domain exceeds MAX_DOMAIN"<<endl;
 			}
 		}
+		//else if line is blank
+		else if(line_buffer[strspn(line_buffer, " \t")] == '\0')
+		{
+			//do nothing
+			;
+		}
 		//else its clause lines
 		else
 		{
diff --git a/src/Boolean2Finite.cc b/src/Boolean2Finite.cc
index 212b73a..b94fcfc 100644
--- a/src/Boolean2Finite.cc
+++ b/src/Boolean2Finite.cc
@@ -62,6 +62,12 @@ void Boolean2Finite(CommandLine * cline)
 	  outfile.write(line_buffer, strlen(line_buffer));
 	  outfile.put('\n');
 	}
+      //else if line is blank
+      else if(line_buffer[strspn(line_buffer, " \t")] == '\0')
+	{
+	  //do nothing
+	  ;
+	}
       //else its variables
       else
 	{
diff --git a/src/Formula.cc b/src/Formula.cc
index a513db5..e8a604f 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -115,6 +115,12 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 			temp_var = new Variable(var, val);
 			VARLIST.push_back(temp_var);
 		}
+		//else if line is blank
+		else if(line_buffer[strspn(line_buffer, " \t")] == '\0')
+		{
+			//do nothing
+			;
+		}
 		//else its clause lines
 		else
 		{
diff --git a/src/LinearEncode.cc b/src/LinearEncode.cc
index 047ae7b..3a90910 100644
--- a/src/LinearEncode.cc
+++ b/src/LinearEncode.cc
@@ -87,6 +87,12 @@ void LinearEncode(CommandLine * cline)
 	  new_num_clause += 4*(val-2)+3+1;
 	  domain[var] = val;
 	}
+      //else if line is blank
+      else if(line_buffer[strspn(line_buffer, " \t")] == '\0')
+	{
+	  //do nothing
+	  ;
+	}
       //else its variables
       else
 	{
diff --git a/src/QuadraticEncode.cc b/src/QuadraticEncode.cc
index bfacb30..3808552 100644
--- a/src/QuadraticEncode.cc
+++ b/src/QuadraticEncode.cc
@@ -88,6 +88,12 @@ void QuadraticEncode(CommandLine * cline)
 	  num_clause += (Fact(val)/(Fact(val-2)*Fact(2)));
 	  num_clause += 1;
 	}
+      //else if line is blank
+      else if(line_buffer[strspn(line_buffer, " \t")] == '\0')
+	{
+	  //do nothing
+	  ;
+	}
       //else its variables
       else
 	{
-- 
2.43.0


From 2c6cb2b7ff24a2675b79bb1c5ff7dbaacb765184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 07/26] fix: the printed model leaves out the variables that
 the lazy heuristic did not assign

---
 src/Formula.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Formula.cc b/src/Formula.cc
index e8a604f..e2c9927 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -247,6 +247,18 @@ void Formula::PrintModel()
 	{
 		if(DECSTACK[i].EQUAL) DECSTACK[i].Print();
 	}
+	//a variable that the search left open can take any of its open values
+	for(unsigned int i=1; i<VARLIST.size(); i++)
+	{
+		for(int j=0; VARLIST[i]->VAL == -1 && j<VARLIST[i]->DOMAINSIZE; j++)
+		{
+			if(VARLIST[i]->ATOMASSIGN[j] == 0)
+			{
+				Literal(i, true, j).Print();
+				break;
+			}
+		}
+	}
 	if (LOG) cout<<endl;
 }
 
-- 
2.43.0


From 01d9b52d06febe8e3ff140711360cd2e9a5d4089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 08/26] fix: a restart of the bit-vector solver keeps
 assignments of undone levels

---
 bitvec/Formula.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index c16e22a..53c24e7 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -433,7 +433,7 @@ void Formula::watchedUndoTheory ( int level ) { // FIXME  fixed ?
 
 	for ( unsigned int  i = 1; i < VARLIST.size(); i++ ) {
 
-		while (!VARLIST[i]->graphNodes.empty() && VARLIST[i]->graphNodes.back().level>LEVEL) {
+		while (!VARLIST[i]->graphNodes.empty() && VARLIST[i]->graphNodes.back().level>level) {
 
 			VARLIST[i]->CURRENT_DOMAIN = VARLIST[i]->CURRENT_DOMAIN | VARLIST[i]->graphNodes.back().values;
 
-- 
2.43.0


From c91cfaed2bd4f43fcd9c371ccb879f3ad95f7376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 09/26] fix: the missing second watched literal of a unit
 clause is looked up out of bounds

---
 bitvec/Formula.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index 53c24e7..8eba51c 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -530,7 +530,8 @@ int Formula::sat ( Literal literal ) {
 	// computes literal -> SAT
 	// literal -> SAT == 2 unassigned, == 1 satisfied, == 0 falsified
 
-	if ( literal.isSuperset(VARLIST[literal . VAR] -> CURRENT_DOMAIN ) ) return 1; // literal is satisfied
+	if ( literal . VAR == -1 ) return 0; // a unit clause has no second watched literal
+	else if ( literal.isSuperset(VARLIST[literal . VAR] -> CURRENT_DOMAIN ) ) return 1; // literal is satisfied
 	else if ( literal.falsifies(VARLIST[literal . VAR] -> CURRENT_DOMAIN ) ) return 0; // falsified
 	else return 2; //  literal is undefined
 
-- 
2.43.0


From 32b5b79bd072540bd99624cae9c609ef9b0940c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 10/26] fix: a domain larger than MAX_DOMAIN is reported but
 then solved anyway

---
 bitvec/Formula.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index 8eba51c..5e138c6 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -110,12 +110,14 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 		else if(line_buffer[0] == 'd')
 		{
 			sscanf(line_buffer, "d %d %d", &var, &val);
-			temp_var = new Variable(var, val);
-			VARLIST.push_back(temp_var);
 
 			if (val>MAX_DOMAIN) {
 				cout << "Error: domain exceeds MAX_DOMAIN"<<endl;
+				exit(1);
 			}
+
+			temp_var = new Variable(var, val);
+			VARLIST.push_back(temp_var);
 		}
 		//else if line is blank
 		else if(line_buffer[strspn(line_buffer, " \t")] == '\0')
-- 
2.43.0


From af1c2d897389e1e1f6a47d06b61e9bc5e986f076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 11/26] fix: the documented option -restarts is not recognised

---
 bitvec/Global.cc | 2 +-
 src/Global.cc    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitvec/Global.cc b/bitvec/Global.cc
index 13de27b..1ac33e1 100644
--- a/bitvec/Global.cc
+++ b/bitvec/Global.cc
@@ -125,7 +125,7 @@ void ParseCommandLine(CommandLine * cline, int argc, char ** argv)
 		{
 			for(current = 2; current < argc; current++)
 			{
-				if (!strcmp(argv[current], "-restart"))
+				if (!strcmp(argv[current], "-restart") || !strcmp(argv[current], "-restarts"))
 					cline->RESTARTS = atoi(argv[++current]);
 				else if(!strcmp(argv[current], "-verbose"))
 					cline->LOG = true;
diff --git a/src/Global.cc b/src/Global.cc
index 666b4d3..4ff0ad0 100644
--- a/src/Global.cc
+++ b/src/Global.cc
@@ -315,7 +315,7 @@ void ParseCommandLine(CommandLine * cline, int argc, char ** argv)
 		{
 			for(current = 2; current < argc; current++)
 			{
-				if (!strcmp(argv[current], "-restart"))
+				if (!strcmp(argv[current], "-restart") || !strcmp(argv[current], "-restarts"))
 					cline->RESTARTS = atoi(argv[++current]);
 				else if(!strcmp(argv[current], "-verbose"))
 					cline->LOG = true;
-- 
2.43.0


From 1577a15732625a0e62f4692ee0660c326c2548ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 12/26] fix: the linear encoding drops the negation of literals
 of two-valued variables

---
 src/LinearEncode.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinearEncode.cc b/src/LinearEncode.cc
index 3a90910..975cc2c 100644
--- a/src/LinearEncode.cc
+++ b/src/LinearEncode.cc
@@ -185,7 +185,7 @@ void LinearEncode(CommandLine * cline)
 			}
 		      else
 			{
-			  if(val == 1)
+			  if((val == 1) != (ch == '!'))
 			    {
 			      var = index[var];
 			      outfile<<var<<" ";
-- 
2.43.0


From 1df7ffe16da4fd3d3c5306f5320bf0b5dfd02958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 13/26] fix: the linear encoding counts variables and clauses
 it does not write for two-valued variables

---
 src/LinearEncode.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/LinearEncode.cc b/src/LinearEncode.cc
index 975cc2c..92b5466 100644
--- a/src/LinearEncode.cc
+++ b/src/LinearEncode.cc
@@ -83,8 +83,14 @@ void LinearEncode(CommandLine * cline)
 	{
 	  temp = sscanf(line_buffer, "d %d %d", &var, &val);
 	  count++;
-	  new_num_var += 2*val-1;
-	  new_num_clause += 4*(val-2)+3+1;
+	  if(val > 2)
+	    {
+	      new_num_var += 2*val-1;
+	      new_num_clause += 4*(val-2)+3+1;
+	    }
+	  //a variable with at most two values is a single boolean variable
+	  else
+	    new_num_var += 1;
 	  domain[var] = val;
 	}
       //else if line is blank
-- 
2.43.0


From ed15d9d7fa2eb5120f43f21056de0c3a504e2bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 14/26] fix: the linear encoding lets a single-valued variable
 take two values

---
 src/LinearEncode.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/LinearEncode.cc b/src/LinearEncode.cc
index 92b5466..e4c3597 100644
--- a/src/LinearEncode.cc
+++ b/src/LinearEncode.cc
@@ -90,7 +90,11 @@ void LinearEncode(CommandLine * cline)
 	    }
 	  //a variable with at most two values is a single boolean variable
 	  else
-	    new_num_var += 1;
+	    {
+	      new_num_var += 1;
+	      if(val == 1)
+		new_num_clause += 1;
+	    }
 	  domain[var] = val;
 	}
       //else if line is blank
@@ -147,6 +151,11 @@ void LinearEncode(CommandLine * cline)
 			  outfile<<var_t1<<" "<<var_t2<<" 0\n";
 			}
 		    }
+		  //only value 0 is allowed
+		  else if(domain[i] == 1)
+		    {
+		      outfile<<-index[i]<<" 0"<<endl;
+		    }
 		  else
 		    {
 		      //do nothing
-- 
2.43.0


From be77ad9bd789e9cdf1c4e2aed842b31db59f8be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 15/26] fix: the encoders do not read the documented header p
 mvcnf

---
 src/LinearEncode.cc    | 2 +-
 src/QuadraticEncode.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LinearEncode.cc b/src/LinearEncode.cc
index e4c3597..99b1202 100644
--- a/src/LinearEncode.cc
+++ b/src/LinearEncode.cc
@@ -69,7 +69,7 @@ void LinearEncode(CommandLine * cline)
       else if(line_buffer[0] == 'p')
 	{
 	  //do nothing
-	  temp = sscanf(line_buffer, "p cnf %d %d", &var, &val);
+	  temp = sscanf(line_buffer, "p %*s %d %d", &var, &val);
 	  num_var = var;
 	  num_clause = val;
 	  domain = new int[var+1];
diff --git a/src/QuadraticEncode.cc b/src/QuadraticEncode.cc
index 3808552..e27263a 100644
--- a/src/QuadraticEncode.cc
+++ b/src/QuadraticEncode.cc
@@ -75,7 +75,7 @@ void QuadraticEncode(CommandLine * cline)
       else if(line_buffer[0] == 'p')
 	{
 	  //do nothing
-	  temp = sscanf(line_buffer, "p cnf %d %d", &var, &val);
+	  temp = sscanf(line_buffer, "p %*s %d %d", &var, &val);
 	  num_clause += val;
 	}
       //else if line is d var# domsize
-- 
2.43.0


From d27c30b2f897e5362ba0c688808a5562c6e92c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 16/26] fix: the quadratic encoding computes its clause count
 with overflowing factorials

---
 src/QuadraticEncode.cc | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/QuadraticEncode.cc b/src/QuadraticEncode.cc
index e27263a..0f2f948 100644
--- a/src/QuadraticEncode.cc
+++ b/src/QuadraticEncode.cc
@@ -9,16 +9,6 @@
 #include <cstring>
 using namespace std;
 //**********************************************************************//
-//Factorial
-//Computes the factorial of a number
-inline int Fact(int n)
-{
-  int temp = 1;
-  for(int x=1; x<n+1; x++)
-    temp *= x;
-  return temp;
-}
-
 //QuadraticEncode
 //This function converts a finite domain file into a boolean domain
 //using the Quadratic Encoding technique
@@ -85,7 +75,7 @@ void QuadraticEncode(CommandLine * cline)
 	  temp_var = new Variable(var, val);
 	  VAR_LIST.push_back(temp_var);
 	  num_var += val;
-	  num_clause += (Fact(val)/(Fact(val-2)*Fact(2)));
+	  num_clause += val*(val-1)/2;
 	  num_clause += 1;
 	}
       //else if line is blank
-- 
2.43.0


From 5b2bdbf465fcc67cbafa89d0959fc129574efd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 17/26] fix: the encoders write nothing for a problem without
 clauses

---
 src/LinearEncode.cc    | 20 +++++++++++++++-----
 src/QuadraticEncode.cc | 16 +++++++++++++---
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/LinearEncode.cc b/src/LinearEncode.cc
index 99b1202..9013737 100644
--- a/src/LinearEncode.cc
+++ b/src/LinearEncode.cc
@@ -24,7 +24,7 @@ void LinearEncode(CommandLine * cline)
   int num_var = 0;
   int new_num_clause = 0;
   int new_num_var = 0;
-  int * domain;
+  int * domain = NULL;
   int * index;
   int var, val;
   int temp;
@@ -56,8 +56,17 @@ void LinearEncode(CommandLine * cline)
 
   //now reading each line from the infile and if needed to convert
   //then converting it and writing to outfile or just writing directly
-  while(getline(infile, line))
+  //the pass after the last line writes the header if no clause line did
+  bool more = true;
+  while(more)
     {
+      more = (bool) getline(infile, line);
+      if(!more)
+	{
+	  if((isdone || domain == NULL))
+	    break;
+	  line.clear();
+	}
       char * line_buffer = &line[0];
       //if line is comment - just write
       if(line_buffer[0] == 'c')
@@ -73,7 +82,7 @@ void LinearEncode(CommandLine * cline)
 	  num_var = var;
 	  num_clause = val;
 	  domain = new int[var+1];
-	  index = new int[var+1];
+	  index = new int[var+2];
 	  //default initialization to domain value 2
 	  for(int i=0; i<var+1; i++)
 	    domain[i] = 2;
@@ -98,7 +107,7 @@ void LinearEncode(CommandLine * cline)
 	  domain[var] = val;
 	}
       //else if line is blank
-      else if(line_buffer[strspn(line_buffer, " \t")] == '\0')
+      else if(more && line_buffer[strspn(line_buffer, " \t")] == '\0')
 	{
 	  //do nothing
 	  ;
@@ -214,7 +223,8 @@ void LinearEncode(CommandLine * cline)
 		    }
 		}
 	    }while(*lp);
-	  outfile<<"0"<<endl;
+	  if(more)
+	    outfile<<"0"<<endl;
 	}
     }
 
diff --git a/src/QuadraticEncode.cc b/src/QuadraticEncode.cc
index 0f2f948..60cf422 100644
--- a/src/QuadraticEncode.cc
+++ b/src/QuadraticEncode.cc
@@ -52,8 +52,17 @@ void QuadraticEncode(CommandLine * cline)
 
   //now reading each line from the infile and if needed to convert
   //then converting it and writing to outfile or just writing directly
-  while(getline(infile, line))
+  //the pass after the last line writes the header if no clause line did
+  bool more = true;
+  while(more)
     {
+      more = (bool) getline(infile, line);
+      if(!more)
+	{
+	  if(isdone)
+	    break;
+	  line.clear();
+	}
       char * line_buffer = &line[0];
       //if line is comment - just write
       if(line_buffer[0] == 'c')
@@ -79,7 +88,7 @@ void QuadraticEncode(CommandLine * cline)
 	  num_clause += 1;
 	}
       //else if line is blank
-      else if(line_buffer[strspn(line_buffer, " \t")] == '\0')
+      else if(more && line_buffer[strspn(line_buffer, " \t")] == '\0')
 	{
 	  //do nothing
 	  ;
@@ -143,7 +152,8 @@ void QuadraticEncode(CommandLine * cline)
 		    }
 		}
 	    }while(*lp);
-	  outfile<<"0"<<endl;
+	  if(more)
+	    outfile<<"0"<<endl;
 	}
     }
 
-- 
2.43.0


From 8218fe896460b69469ddd16ac8a15b380f3374cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 18/26] fix: -drand can give a variable an empty domain

---
 src/GenBenFunc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GenBenFunc.cc b/src/GenBenFunc.cc
index 5a9b324..9eaa10d 100644
--- a/src/GenBenFunc.cc
+++ b/src/GenBenFunc.cc
@@ -56,7 +56,7 @@ void GenBenFin(CommandLine * cline)
       for(x=0; x<cline->NUM_VAR; x++)
 	{
 	  VARIABLES[x].VAR = x;
-	  VARIABLES[x].VAL = rand() % cline->DOMAIN_SIZE;
+	  VARIABLES[x].VAL = 1 + rand() % cline->DOMAIN_SIZE;
 	}
     }
 
-- 
2.43.0


From ea1330b736ec208cb19ce0744362d6d74d6bfc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 19/26] fix: boolean benchmarks asked to be satisfiable can be
 unsatisfiable

---
 src/GenBenFunc.cc | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/GenBenFunc.cc b/src/GenBenFunc.cc
index 9eaa10d..92149c9 100644
--- a/src/GenBenFunc.cc
+++ b/src/GenBenFunc.cc
@@ -179,14 +179,7 @@ void GenBenBool(CommandLine * cline)
 	  if(cline->SAT_UNSAT && x==0)
 	    {
 	      //assigning variable to clause
-	      if(rand()%2)
-		{
-		  BCLAUSE_LIST[y][x] = BSOLN[(rand() % cline->NUM_VAR)+1];
-		}
-	      else
-		{
-		  BCLAUSE_LIST[y][x] = -1 * BSOLN[(rand() % cline->NUM_VAR)+1];
-		}
+	      BCLAUSE_LIST[y][x] = BSOLN[(rand() % cline->NUM_VAR)+1];
 	    }
 
 	  //else unsatisfiable
-- 
2.43.0


From 5c12aeb2926752432e2b7fd99f30b96adedc5edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 20/26] fix: the generators exit with status 0 when they cannot
 write their output

---
 src/GenBenFunc.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GenBenFunc.cc b/src/GenBenFunc.cc
index 92149c9..70a6c7c 100644
--- a/src/GenBenFunc.cc
+++ b/src/GenBenFunc.cc
@@ -119,6 +119,7 @@ void GenBenFin(CommandLine * cline)
       cout<<" Could not open output file to write "<<endl;
       cout<<"****       ****"<<endl;
       cout<<endl;
+      exit(1);
     }
   else
     {
@@ -225,6 +226,7 @@ void GenBenBool(CommandLine * cline)
       cout<<" Could not open output file to write "<<endl;
       cout<<"****       ****"<<endl;
       cout<<endl;
+      exit(1);
     }
   else
     {
-- 
2.43.0


From d098c7db68e28d37c8dc34315edf44470057b945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:58 +0000
Subject: [PATCH 21/26] fix: the help menu loops forever when its input ends

---
 bitvec/Global.cc | 3 ++-
 src/Global.cc    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/bitvec/Global.cc b/bitvec/Global.cc
index 1ac33e1..8d4aa46 100644
--- a/bitvec/Global.cc
+++ b/bitvec/Global.cc
@@ -45,7 +45,8 @@ void PrintHelp()
 		cout<<" (0) Quit"<<endl;
 		cout<<endl;
 		cout<<" Enter Choice now : ";
-		cin>>option;
+		if(!(cin>>option))
+			option = 0;
 		cout<<endl;
 
 		//Start Printing messages based on option
diff --git a/src/Global.cc b/src/Global.cc
index 4ff0ad0..4cffddd 100644
--- a/src/Global.cc
+++ b/src/Global.cc
@@ -50,7 +50,8 @@ void PrintHelp()
 		cout<<" (0) Quit"<<endl;
 		cout<<endl;
 		cout<<" Enter Choice now : ";
-		cin>>option;
+		if(!(cin>>option))
+			option = 0;
 		cout<<endl;
 
 		//Start Printing messages based on option
-- 
2.43.0


From 1bda785eaa1c93dcbe903e7ab2a22602ab2edf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:26 +0000
Subject: [PATCH 22/26] fix: -b2f declares only the variables that occur, and
 crashes when there are none

---
 src/Boolean2Finite.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/Boolean2Finite.cc b/src/Boolean2Finite.cc
index b94fcfc..5111ff2 100644
--- a/src/Boolean2Finite.cc
+++ b/src/Boolean2Finite.cc
@@ -19,7 +19,7 @@ void Boolean2Finite(CommandLine * cline)
   string line;
   int line_num = 0;
   int variable = 0;
-  set<int> variables;
+  int num_var = 0;
   vector <vector<int> > data;
 
   //opening infile to read and checking if it opens
@@ -61,6 +61,9 @@ void Boolean2Finite(CommandLine * cline)
 	{
 	  outfile.write(line_buffer, strlen(line_buffer));
 	  outfile.put('\n');
+	  int declared = 0;
+	  if(sscanf(line_buffer, "p %*s %d", &declared) == 1 && declared > num_var)
+	    num_var = declared;
 	}
       //else if line is blank
       else if(line_buffer[strspn(line_buffer, " \t")] == '\0')
@@ -93,7 +96,8 @@ void Boolean2Finite(CommandLine * cline)
 	      if(strlen(word_buffer) != 0)
 		{
 		  variable = atoi(word_buffer);
-		  variables.insert(abs(variable));
+		  if(abs(variable) > num_var)
+		    num_var = abs(variable);
 		  //checking if variable = 0 i.e end of line
 		  if(variable != 0)
 		    {
@@ -122,13 +126,9 @@ void Boolean2Finite(CommandLine * cline)
     }
 
   //now writing back the domain information
-  set<int>::iterator start = variables.begin();
-  set<int>::iterator end = variables.end();
-  end--;
-  for( ; start != end; )
+  for(int v=1; v<=num_var; v++)
     {
-      ++start;
-      outfile<<"d "<<*start<<" 2"<<endl;
+      outfile<<"d "<<v<<" 2"<<endl;
     }
 
   int ovsize = data.size();
-- 
2.43.0


From e2e2b43b9462165b6a67e0244725960911e9b6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:26 +0000
Subject: [PATCH 23/26] fix: -b2f does not end its clauses with 0, so an empty
 clause is lost

---
 src/Boolean2Finite.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Boolean2Finite.cc b/src/Boolean2Finite.cc
index 5111ff2..4bc3c77 100644
--- a/src/Boolean2Finite.cc
+++ b/src/Boolean2Finite.cc
@@ -150,7 +150,7 @@ void Boolean2Finite(CommandLine * cline)
 	      outfile<<var<<"=1 ";
 	    }
 	}
-      outfile<<endl;
+      outfile<<"0"<<endl;
     }
   //closing file
   infile.close();
-- 
2.43.0


From c04f1c4abd4ea2d34eff3577f4c4c4854267452f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:26 +0000
Subject: [PATCH 24/26] fix: -b2f reads the trailer of SATLIB files as clauses

---
 src/Boolean2Finite.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Boolean2Finite.cc b/src/Boolean2Finite.cc
index 4bc3c77..798463f 100644
--- a/src/Boolean2Finite.cc
+++ b/src/Boolean2Finite.cc
@@ -65,6 +65,11 @@ void Boolean2Finite(CommandLine * cline)
 	  if(sscanf(line_buffer, "p %*s %d", &declared) == 1 && declared > num_var)
 	    num_var = declared;
 	}
+      //else if line is the end mark of SATLIB files
+      else if(line_buffer[0] == '%')
+	{
+	  break;
+	}
       //else if line is blank
       else if(line_buffer[strspn(line_buffer, " \t")] == '\0')
 	{
-- 
2.43.0


From dce67c8ee05e982e5da5df162a280150eef1f3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:05 +0000
Subject: [PATCH 25/26] fix: report an input file that cannot be read to its
 end

---
 bitvec/Formula.cc      | 10 ++++++++++
 src/Boolean2Finite.cc  | 10 ++++++++++
 src/Formula.cc         | 10 ++++++++++
 src/LinearEncode.cc    | 10 ++++++++++
 src/QuadraticEncode.cc | 10 ++++++++++
 5 files changed, 50 insertions(+)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index 5e138c6..c04dc64 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -224,6 +224,16 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 		}
 	}
 
+	//what was read is not the whole problem if reading failed
+	if(infile.bad())
+	{
+		cout<<endl;
+		cout<<"**** ERROR ****"<<endl;
+		cout<<"Could not read input file : "<<endl;
+		cout<<endl;
+		exit(1);
+	}
+
 	//closing file
 	infile.close();
 	TIME_E = GetTime();
diff --git a/src/Boolean2Finite.cc b/src/Boolean2Finite.cc
index 798463f..564b517 100644
--- a/src/Boolean2Finite.cc
+++ b/src/Boolean2Finite.cc
@@ -130,6 +130,16 @@ void Boolean2Finite(CommandLine * cline)
 	}
     }
 
+  //what was read is not the whole problem if reading failed
+  if(infile.bad())
+    {
+      cout<<endl;
+      cout<<"**** ERROR ****"<<endl;
+      cout<<"Could not read input file : "<<endl;
+      cout<<endl;
+      exit(1);
+    }
+
   //now writing back the domain information
   for(int v=1; v<=num_var; v++)
     {
diff --git a/src/Formula.cc b/src/Formula.cc
index e2c9927..f8d93a2 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -223,6 +223,16 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 		}
 	}
 
+	//what was read is not the whole problem if reading failed
+	if(infile.bad())
+	{
+		cout<<endl;
+		cout<<"**** ERROR ****"<<endl;
+		cout<<"Could not read input file : "<<endl;
+		cout<<endl;
+		exit(1);
+	}
+
 	//closing file
 	infile.close();
 
diff --git a/src/LinearEncode.cc b/src/LinearEncode.cc
index 9013737..ff2e806 100644
--- a/src/LinearEncode.cc
+++ b/src/LinearEncode.cc
@@ -228,6 +228,16 @@ void LinearEncode(CommandLine * cline)
 	}
     }
 
+  //what was read is not the whole problem if reading failed
+  if(infile.bad())
+    {
+      cout<<endl;
+      cout<<"**** ERROR ****"<<endl;
+      cout<<"Could not read input file : "<<endl;
+      cout<<endl;
+      exit(1);
+    }
+
   //closing file
   infile.close();
   outfile.close();
diff --git a/src/QuadraticEncode.cc b/src/QuadraticEncode.cc
index 60cf422..7622619 100644
--- a/src/QuadraticEncode.cc
+++ b/src/QuadraticEncode.cc
@@ -157,6 +157,16 @@ void QuadraticEncode(CommandLine * cline)
 	}
     }
 
+  //what was read is not the whole problem if reading failed
+  if(infile.bad())
+    {
+      cout<<endl;
+      cout<<"**** ERROR ****"<<endl;
+      cout<<"Could not read input file : "<<endl;
+      cout<<endl;
+      exit(1);
+    }
+
   //closing file
   infile.close();
   outfile.close();
-- 
2.43.0


From 00c9e9bedd37a2373b3ac3d400c390addda62d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:11 +0000
Subject: [PATCH 26/26] fix: report an output file that cannot be written
 completely

---
 src/Boolean2Finite.cc  |  8 ++++++++
 src/GenBenFunc.cc      | 16 ++++++++++++++++
 src/LinearEncode.cc    |  8 ++++++++
 src/QuadraticEncode.cc |  8 ++++++++
 4 files changed, 40 insertions(+)

diff --git a/src/Boolean2Finite.cc b/src/Boolean2Finite.cc
index 564b517..a949869 100644
--- a/src/Boolean2Finite.cc
+++ b/src/Boolean2Finite.cc
@@ -170,6 +170,14 @@ void Boolean2Finite(CommandLine * cline)
   //closing file
   infile.close();
   outfile.close();
+  if(!outfile)
+    {
+      cout<<endl;
+      cout<<"**** ERROR ****"<<endl;
+      cout<<"Could not write output file completely"<<endl;
+      cout<<endl;
+      exit(1);
+    }
 }
 //End GenBenFunction
 //**********************************************************************//
diff --git a/src/GenBenFunc.cc b/src/GenBenFunc.cc
index 70a6c7c..17a875e 100644
--- a/src/GenBenFunc.cc
+++ b/src/GenBenFunc.cc
@@ -138,6 +138,14 @@ void GenBenFin(CommandLine * cline)
 	}
     }
   outfile.close();
+  if(!outfile)
+    {
+      cout<<endl;
+      cout<<"**** ERROR ****"<<endl;
+      cout<<"Could not write output file completely"<<endl;
+      cout<<endl;
+      exit(1);
+    }
 }
 
 //GenBenBool
@@ -241,6 +249,14 @@ void GenBenBool(CommandLine * cline)
 	}
     }
   outfile.close();
+  if(!outfile)
+    {
+      cout<<endl;
+      cout<<"**** ERROR ****"<<endl;
+      cout<<"Could not write output file completely"<<endl;
+      cout<<endl;
+      exit(1);
+    }
 }
 //End GenBenFunction
 //**********************************************************************//
diff --git a/src/LinearEncode.cc b/src/LinearEncode.cc
index ff2e806..0b73afc 100644
--- a/src/LinearEncode.cc
+++ b/src/LinearEncode.cc
@@ -241,6 +241,14 @@ void LinearEncode(CommandLine * cline)
   //closing file
   infile.close();
   outfile.close();
+  if(!outfile)
+    {
+      cout<<endl;
+      cout<<"**** ERROR ****"<<endl;
+      cout<<"Could not write output file completely"<<endl;
+      cout<<endl;
+      exit(1);
+    }
 }
 //End LinearEncode
 //**********************************************************************//
diff --git a/src/QuadraticEncode.cc b/src/QuadraticEncode.cc
index 7622619..277850d 100644
--- a/src/QuadraticEncode.cc
+++ b/src/QuadraticEncode.cc
@@ -170,6 +170,14 @@ void QuadraticEncode(CommandLine * cline)
   //closing file
   infile.close();
   outfile.close();
+  if(!outfile)
+    {
+      cout<<endl;
+      cout<<"**** ERROR ****"<<endl;
+      cout<<"Could not write output file completely"<<endl;
+      cout<<endl;
+      exit(1);
+    }
 }
 //End LinearEncode
 //**********************************************************************//
-- 
2.43.0

