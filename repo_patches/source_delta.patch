From bf773c43de00eaa79a09a2c7de9657a35e769eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:29 +0000
Subject: [PATCH 01/30] fix: pair each premise with its own truth value when
 infBinary tries the premises in swapped order

---
 src/NarWorkingCycle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarWorkingCycle.rs b/src/NarWorkingCycle.rs
index 0088f03..38fe696 100644
--- a/src/NarWorkingCycle.rs
+++ b/src/NarWorkingCycle.rs
@@ -741,7 +741,7 @@ pub fn infBinary(a: &Term, aPunct:EnumPunctation, aTv:&Option<Tv>, b: &Term, bPu
     let mut res = vec![];
     *wereRulesApplied = false; // because no rules were applied yet
     res.extend(infBinaryInner(&a, aPunct, &aTv, &b, bPunct, &bTv, wereRulesApplied).iter().cloned());
-    res.extend(infBinaryInner(&b, bPunct, &aTv, &a, aPunct, &bTv, wereRulesApplied).iter().cloned());
+    res.extend(infBinaryInner(&b, bPunct, &bTv, &a, aPunct, &aTv, wereRulesApplied).iter().cloned());
     res
 }
 
-- 
2.43.0


From d8aa32655c2f734c1d05aa4687773e4d891bb17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:29 +0000
Subject: [PATCH 02/30] fix: variable names are drawn from 16 hex digits, digit
 3 was missing and the index could run past the end

---
 src/NarInfProcedural.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarInfProcedural.rs b/src/NarInfProcedural.rs
index c3e861f..cc7d768 100644
--- a/src/NarInfProcedural.rs
+++ b/src/NarInfProcedural.rs
@@ -218,7 +218,7 @@ fn intro_vars(t: &Term, repl: &Term,  rng: &mut rand::rngs::ThreadRng) -> Vec<Te
 fn create_random_varname(rng: &mut rand::rngs::ThreadRng) -> Term {
     let mut name: String = "Q".to_string();
     for _i in 0..24 {
-        let v = "012456789ABCDEF".chars().nth(rng.gen_range(0..16)).unwrap();
+        let v = "0123456789ABCDEF".chars().nth(rng.gen_range(0..16)).unwrap();
         name += &v.to_string();
     }
     Term::IndepVar(name)
-- 
2.43.0


From 9931f40c91907848a3e6452355bc2d4e1eb145c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:29 +0000
Subject: [PATCH 03/30] fix: store worker must not panic on told =/> beliefs,
 which have no time delta

---
 src/NarProc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarProc.rs b/src/NarProc.rs
index 41d6db7..5762b50 100644
--- a/src/NarProc.rs
+++ b/src/NarProc.rs
@@ -403,7 +403,7 @@ pub fn narInit() -> ProcNar {
                         
                         if !checkOverlap(&iEE.stamp, &evidenceSentence.stamp) { // evidence must no overlap!
                             if
-                                iEE.expDt.unwrap() >= evidenceSentence.expDt.unwrap() && // check for greater because we want to count evidence for longer intervals too, because longer ones are "included"
+                                iEE.expDt >= evidenceSentence.expDt && // check for greater because we want to count evidence for longer intervals too, because longer ones are "included"
                                 
                                 // does impl seq match?
                                 checkEqTerm(&iEE.term, &evidenceSentence.term)
-- 
2.43.0


From d6a598b9fb60737cfa27f0b8c80543faa0045d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:29 +0000
Subject: [PATCH 04/30] fix: accept =/> beliefs whose subject is not a sequence

---
 src/NarProc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarProc.rs b/src/NarProc.rs
index 5762b50..e3fa1df 100644
--- a/src/NarProc.rs
+++ b/src/NarProc.rs
@@ -1115,7 +1115,7 @@ pub fn retSeqCond(term:&Term) -> Term {
                 Term::Seq(seq) => {
                     *seq[0].clone()
                 },
-                _ => {panic!("expected seq!");}
+                _ => (**subj).clone() // the subject is the condition if it is not a sequence
             }
         },
         _ => {panic!("expected pred impl!");}
-- 
2.43.0


From 241c1bef39a94af3c9d848644b7a91164610e0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:29 +0000
Subject: [PATCH 05/30] fix: decision making must not panic on a sequence goal
 which does not end with an op

---
 src/NarProc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarProc.rs b/src/NarProc.rs
index e3fa1df..aebed0f 100644
--- a/src/NarProc.rs
+++ b/src/NarProc.rs
@@ -825,7 +825,7 @@ pub fn narStep1(nar:&mut ProcNar, declMem:&Option<Arc<RwLock<Mem2>>>) {
 
         match bestEntry2 {
             Some(bestEntry3) => {
-                if bestEntry3.exp > nar.cfgDescnThreshold {
+                if bestEntry3.exp > nar.cfgDescnThreshold && is_seqAndLastOp(&bestEntry3.unifiedSeq) { // only a sequence which ends with a op can be executed
                     match bestEntry3.evidence {
                         Some(evidence) => {
                             
-- 
2.43.0


From c5ac744da400159c9bacdf316ee25a0f743b0b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:51 +0000
Subject: [PATCH 06/30] fix: parser must not panic on non-ASCII text

---
 src/NarseseParser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/NarseseParser.rs b/src/NarseseParser.rs
index f14a838..19af430 100644
--- a/src/NarseseParser.rs
+++ b/src/NarseseParser.rs
@@ -22,11 +22,11 @@ use crate::TermApi::*;
 pub fn parseNarseseRetTv(narsese:&mut String, tv:&mut Tv) {
   *tv = Tv{f:1.0,c:0.9}; // set TV to default
   
-  if narsese.len() > 0 && narsese.chars().nth(narsese.len()-1).unwrap() == '}' {
+  if narsese.ends_with('}') {
     for revIdx in 1..narsese.len() { // scan for '{'
       let idx = narsese.len() - revIdx; // compute index from back
       
-      if narsese.chars().nth(idx).unwrap() == '{' {
+      if narsese.as_bytes()[idx] == b'{' {
         let tvStr = &narsese[idx+1..narsese.len()-1];
         let splitted:Vec<&str> = tvStr.split(" ").collect();
         
@@ -73,8 +73,7 @@ pub fn parseNarsese(narsese:&String) -> Option<(Term, Tv, EnumPunctation, bool)>
     return None; // can't parse empty string!
   }
   
-  let punctationChar = narsese2.chars().nth(narsese2.len()-1).unwrap();
-  let narseseInner = narsese2[..narsese2.len()-1].to_string();
+  let punctationChar = narsese2.chars().last().unwrap();
   
   let punctation = match punctationChar {
     '.' => {EnumPunctation::JUGEMENT},
@@ -82,6 +81,7 @@ pub fn parseNarsese(narsese:&String) -> Option<(Term, Tv, EnumPunctation, bool)>
     '?' => {EnumPunctation::QUESTION},
     _ => {return None;},
   };
+  let narseseInner = narsese2[..narsese2.len()-1].to_string(); // all punctation chars are one byte long
 
   //println!("{}   {}", narseseInner, punctationChar);
   //println!("f = {}", tv.f);
-- 
2.43.0


From 758303ee99bc656ff091551bfc865570b957eba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:51 +0000
Subject: [PATCH 07/30] fix: reject truth values which are not numbers or not
 in range instead of panicking or poisoning the memory with NaN

---
 src/NarseseParser.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/NarseseParser.rs b/src/NarseseParser.rs
index 19af430..f64c871 100644
--- a/src/NarseseParser.rs
+++ b/src/NarseseParser.rs
@@ -31,11 +31,13 @@ pub fn parseNarseseRetTv(narsese:&mut String, tv:&mut Tv) {
         let splitted:Vec<&str> = tvStr.split(" ").collect();
         
         if splitted.len() == 2 { // must have two values
-          // TODO< handle error better >
-          let f = splitted[0].parse::<f64>().unwrap();
-          let c = splitted[1].parse::<f64>().unwrap();
-          *narsese = narsese[..idx].to_string(); // cut away
-          *tv = Tv{f:f,c:c};
+          match (splitted[0].parse::<f64>(), splitted[1].parse::<f64>()) {
+            (Ok(f), Ok(c)) if 0.0 <= f && f <= 1.0 && 0.0 <= c && c < 1.0 => {
+              *narsese = narsese[..idx].to_string(); // cut away
+              *tv = Tv{f:f,c:c};
+            },
+            _ => {} // is not a valid TV, is not cut away and thus rejected by the caller
+          }
           return;
         }
         return;
-- 
2.43.0


From 66dca4a75f1b1670a53e28439232a11032d9b44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:51 +0000
Subject: [PATCH 08/30] fix: input facade must not panic on lines with
 non-ASCII characters

---
 src/NarInputFacade.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/NarInputFacade.rs b/src/NarInputFacade.rs
index 5807805..b9e94c5 100644
--- a/src/NarInputFacade.rs
+++ b/src/NarInputFacade.rs
@@ -25,11 +25,11 @@ pub fn input(nar:&mut Nar, line: &String, quit: &mut bool) -> Vec<String> {
     trimNewline(&mut input);
 
     // TODO< trim comment by // away   >
-    if input.len() >= 2 && &input[..2] == "//" { // is commented line?
+    if input.starts_with("//") { // is commented line?
         // ignore
     }
     
-    else if input.len() >= 3 && &input[..3] == "!sp" { // step procedural
+    else if input.starts_with("!sp") { // step procedural
         //let mut nCycles = 1;
         //if input.len() > 5 && false { // parse number of cycles
         //    // TODO< check if it was parsed fine! >
@@ -45,7 +45,7 @@ pub fn input(nar:&mut Nar, line: &String, quit: &mut bool) -> Vec<String> {
     else if input == "!spB" { // step procedural B
         NarProc::narStep1(&mut nar.procNar, &Some(Arc::clone(&nar.mem)));
     }
-    else if input.len() >= 2 && &input[..2] == "!s" {
+    else if input.starts_with("!s") {
         let mut nCycles = 1;
         if input.len() > 2 { // parse number of cycles
             // TODO< check if it was parsed fine! >
@@ -58,7 +58,7 @@ pub fn input(nar:&mut Nar, line: &String, quit: &mut bool) -> Vec<String> {
     else if input == "!dtf" { // delcarative tasks flush
         flushTasks(&*nar.mem.read());
     }
-    else if input.len() >= 5 && &input[..5] == "!por " { // procedural op register --- register op, argument is type/name of op, 2nd argument is name of op
+    else if input.starts_with("!por ") { // procedural op register --- register op, argument is type/name of op, 2nd argument is name of op
         let args:Vec<&str> = input[5..].split_whitespace().collect();
         if args.len() == 1 {
             let argOpType:String = args[0].to_string();
@@ -95,7 +95,7 @@ pub fn input(nar:&mut Nar, line: &String, quit: &mut bool) -> Vec<String> {
         nar.procNar.cfgEnBabbling = true;
     }
 
-    else if input.len() > 6 && &input[..6] == "!.nlp " {
+    else if input.len() > 6 && input.starts_with("!.nlp ") {
         let natural = &input[6..].to_string();
         NarModuleNlp3::process(nar, &natural);
     }
-- 
2.43.0


From 6976307d035c63f63073ec740723581291d15690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:51 +0000
Subject: [PATCH 09/30] fix: a !s command with a malformed cycle count must not
 panic

---
 src/NarInputFacade.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/NarInputFacade.rs b/src/NarInputFacade.rs
index b9e94c5..2ba9381 100644
--- a/src/NarInputFacade.rs
+++ b/src/NarInputFacade.rs
@@ -48,8 +48,13 @@ pub fn input(nar:&mut Nar, line: &String, quit: &mut bool) -> Vec<String> {
     else if input.starts_with("!s") {
         let mut nCycles = 1;
         if input.len() > 2 { // parse number of cycles
-            // TODO< check if it was parsed fine! >
-            nCycles = input[2..].parse::<i64>().unwrap();
+            nCycles = match input[2..].parse::<i64>() {
+                Ok(n) => n,
+                Err(_) => {
+                    println!("ERR - couldn't parse number of cycles!");
+                    0
+                }
+            };
         }
         for _i in 0..nCycles {
             cycle(nar);
-- 
2.43.0


From 1748ee4a20eea734fbaee3c0af5c8acc882cf858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:51 +0000
Subject: [PATCH 10/30] fix: !spA and !spB were shadowed by the !sp command

---
 src/NarInputFacade.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/NarInputFacade.rs b/src/NarInputFacade.rs
index 2ba9381..cf533db 100644
--- a/src/NarInputFacade.rs
+++ b/src/NarInputFacade.rs
@@ -29,6 +29,12 @@ pub fn input(nar:&mut Nar, line: &String, quit: &mut bool) -> Vec<String> {
         // ignore
     }
     
+    else if input == "!spA" { // step procedural A
+        NarProc::narStep0(&mut nar.procNar);
+    }
+    else if input == "!spB" { // step procedural B
+        NarProc::narStep1(&mut nar.procNar, &Some(Arc::clone(&nar.mem)));
+    }
     else if input.starts_with("!sp") { // step procedural
         //let mut nCycles = 1;
         //if input.len() > 5 && false { // parse number of cycles
@@ -39,12 +45,6 @@ pub fn input(nar:&mut Nar, line: &String, quit: &mut bool) -> Vec<String> {
         NarProc::narStep0(&mut nar.procNar);
         NarProc::narStep1(&mut nar.procNar, &Some(Arc::clone(&nar.mem)));
     }
-    else if input == "!spA" { // step procedural A
-        NarProc::narStep0(&mut nar.procNar);
-    }
-    else if input == "!spB" { // step procedural B
-        NarProc::narStep1(&mut nar.procNar, &Some(Arc::clone(&nar.mem)));
-    }
     else if input.starts_with("!s") {
         let mut nCycles = 1;
         if input.len() > 2 { // parse number of cycles
-- 
2.43.0


From 31a8bebd8d97bafcaa70e2012514a4ec2bbfb7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:30 +0000
Subject: [PATCH 11/30] fix: revision of very confident beliefs must not round
 the confidence up to 1.0, which led to NaN

---
 src/Tv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Tv.rs b/src/Tv.rs
index 22ddb51..a8f4494 100644
--- a/src/Tv.rs
+++ b/src/Tv.rs
@@ -43,7 +43,7 @@ pub fn rev(a:&Tv,b:&Tv)->Tv {
     if w > 0.0 {
         f = (w1 * a.f + w2 * b.f) / w;
     }
-    let c:f64 = w2c(w);
+    let c:f64 = w2c(w).min(1.0 - 1.0e-10); // evidence is finite, confidence must not get rounded up to 1.0
     Tv{f:f,c:c}
 }
 
-- 
2.43.0


From c6465f1c464f69e060590d04e4fdbf5b1647c448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:30 +0000
Subject: [PATCH 12/30] fix: eternal questions were never posed to the reasoner

---
 src/Nar.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/Nar.rs b/src/Nar.rs
index 3c761a7..b3cb3c7 100644
--- a/src/Nar.rs
+++ b/src/Nar.rs
@@ -96,8 +96,7 @@ pub fn inputT2(nar:&mut Nar, term:&Term, punct:EnumPunctation, tv:&Tv, isEvent:b
 
     if isTemporal {
         if punct == EnumPunctation::QUESTION { // temporal Q&A
-            // quesion was already added
-            //memAddTask(Arc::clone(&nar.mem.read().shared), &sentence, true, nar.cfg__maxComplexity, nar.cfg__nConceptBeliefs, 1.0, nar.procNar.t);
+            memAddTask(Arc::clone(&nar.mem.read().shared), &sentence, true, nar.cfg__maxComplexity, nar.cfg__nConceptBeliefs, 1.0, nar.procNar.t);
         }
         else if punct == EnumPunctation::JUGEMENT {
             // add to temporal knowledge
@@ -117,8 +116,8 @@ pub fn inputT2(nar:&mut Nar, term:&Term, punct:EnumPunctation, tv:&Tv, isEvent:b
         else if punct == EnumPunctation::JUGEMENT {
             memAddTask(Arc::clone(&nar.mem.read().shared), &sentence, true, nar.cfg__maxComplexity, nar.cfg__nConceptBeliefs, 1.0, nar.procNar.t);
         }
-        else {
-            println!("ERR : form is not supported!");
+        else { // eternal Q&A
+            memAddTask(Arc::clone(&nar.mem.read().shared), &sentence, true, nar.cfg__maxComplexity, nar.cfg__nConceptBeliefs, 1.0, nar.procNar.t);
         }
     }
 }
-- 
2.43.0


From 80c1bca1153e9187ae07ef25630eb788a13a6b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:30 +0000
Subject: [PATCH 13/30] fix: !dt could deadlock with the deriver worker

---
 src/NarWorkingCycle.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/NarWorkingCycle.rs b/src/NarWorkingCycle.rs
index 38fe696..7e51de1 100644
--- a/src/NarWorkingCycle.rs
+++ b/src/NarWorkingCycle.rs
@@ -1981,7 +1981,8 @@ pub fn debugCreditsOfTasks(mem: &Mem2) -> Vec<String> {
     
     // debug credit of tasks
     {
-        for iTask in &mem.shared.read().judgementTasks {
+        let sharedGuard = mem.shared.read(); // is only locked once, because a recursive read lock can deadlock with a waiting writer
+        for iTask in &sharedGuard.judgementTasks {
             let taskSentenceAsStr = convSentenceTermPunctToStr(&iTask.read().sentence, true);
             
             let mut taskAsStr = taskSentenceAsStr.clone();
@@ -1991,7 +1992,7 @@ pub fn debugCreditsOfTasks(mem: &Mem2) -> Vec<String> {
                 taskAsStr = format!("{} {}", taskAsStr, NarStamp::convToStr(&iTask.read().sentence.stamp));
             }
 
-            res.push(format!("task  {}  credit={}", taskAsStr, taskCalcCredit(&iTask.read(), mem.shared.read().cycleCounter.load(Ordering::Relaxed))));
+            res.push(format!("task  {}  credit={}", taskAsStr, taskCalcCredit(&iTask.read(), sharedGuard.cycleCounter.load(Ordering::Relaxed))));
         }
     }
 
-- 
2.43.0


From 21c8369ffb5acc07b3e8076f1d1915e4b88d5e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:30 +0000
Subject: [PATCH 14/30] fix: server sent the last broadcasted message again for
 every received line

---
 src/NarServer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarServer.rs b/src/NarServer.rs
index f15ebd2..c31fcdf 100644
--- a/src/NarServer.rs
+++ b/src/NarServer.rs
@@ -58,7 +58,7 @@ async fn connectionLoop(stream: TcpStream, tx: Sender<String>, global:Arc<Mutex<
             let data = global.lock().unwrap(); // unwrap to panic if it can't unlock
             for iItem in &data.arr { // iterate over global items and send to writer
                 if iItem.0 >= myIdCounter { // is it a message which this tread didn't yet observe?
-                    myIdCounter = iItem.0; // update counter so the message is next time ignored
+                    myIdCounter = iItem.0+1; // update counter so the message is next time ignored
                     let bcastedMsg:String = iItem.1.clone(); // copy broadcasted string to local variable
                     toSend.push(bcastedMsg);
                 }
-- 
2.43.0


From 490ced61eecedba5b527fd6abacd2fe6c3279816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:30 +0000
Subject: [PATCH 15/30] fix: interactive session must end at the end of the
 input

---
 src/NarInteractive.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/NarInteractive.rs b/src/NarInteractive.rs
index 630dae7..bc0f06f 100644
--- a/src/NarInteractive.rs
+++ b/src/NarInteractive.rs
@@ -12,6 +12,7 @@ pub fn runInteractive(nar:&mut Nar) {
     loop {
         let mut input2 = String::new();
         match io::stdin().read_line(&mut input2) {
+            Ok(0) => break, // end of input
             Ok(_) => {
                 let mut input = input2.clone();
                 trimNewline(&mut input);
-- 
2.43.0


From 2117cc5d01b9a225f2167077016e21bcab71238e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:30 +0000
Subject: [PATCH 16/30] fix: product to image rule must only be applied to
 binary products

---
 src/NarWorkingCycle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarWorkingCycle.rs b/src/NarWorkingCycle.rs
index 7e51de1..92140fd 100644
--- a/src/NarWorkingCycle.rs
+++ b/src/NarWorkingCycle.rs
@@ -137,7 +137,7 @@ pub fn infStructProd0(a: &Term, punct:EnumPunctation, aTv: &Option<Tv>) -> Optio
     match a {
         Term::Stmt(Copula::INH, prod, pred) => {
             match &**prod {
-                Term::Prod(arr) => {
+                Term::Prod(arr) if arr.len() == 2 => {
                     let prod0 = &arr[0];
                     let prod1 = &arr[1];
 
-- 
2.43.0


From 95ee5c2b313295d1bf6e873c55d8c856035b38fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:30 +0000
Subject: [PATCH 17/30] fix: the same goal was stored again and again because
 most goals were missing in the lookup table

---
 src/NarGoalSystem.rs | 33 +++++++++------------------------
 1 file changed, 9 insertions(+), 24 deletions(-)

diff --git a/src/NarGoalSystem.rs b/src/NarGoalSystem.rs
index c377a02..82ccd74 100644
--- a/src/NarGoalSystem.rs
+++ b/src/NarGoalSystem.rs
@@ -273,6 +273,7 @@ fn addEntry2(goalSystem: &Arc<RwLock<GoalSystem>>, mem2: &Mem2, e: Arc<RwLock<En
                     e.write().accDesirability = newAcc; // update
     
                     iGroup.entries.push(Arc::clone(&e)); // add entry
+                    addToEntriesByTerm(&mut goalSystem.write(), &e);
                     return;
                 }
             }
@@ -285,34 +286,18 @@ fn addEntry2(goalSystem: &Arc<RwLock<GoalSystem>>, mem2: &Mem2, e: Arc<RwLock<En
                 }
             );
 
-            match goalSystem.write().entriesByTerm.get_mut(&e.read().sentence.term) {
-                Some(arr) => {
-                    
-                    let mut exists = false;
-                    for iItem in arr.read().iter() {
-                        let borrowedItem = iItem.read();
-                        if checkEqTerm(&borrowedItem.sentence.term, &e.read().sentence.term) && 
-                           NarStamp::checkOverlap(&borrowedItem.sentence.stamp, &e.read().sentence.stamp) {
-                            exists = true;
-                            break; // OPT
-                        }
-                    }
-                    
-                    if !exists {
-                        arr.write().push(Arc::clone(&e));
-                    }
-                    return;
-                },
-                None => {} // by term doesn't exist - fall through
-            }
-
-            // by term doesn't exist
-            // * insert new item if we are here
-            goalSystem.write().entriesByTerm.insert((*(e.read().sentence.term)).clone(), RwLock::new(vec![Arc::clone(&e)])); // add to memory
+            addToEntriesByTerm(&mut goalSystem.write(), &e);
         }
 	}
 }
 
+/// helper to add the goal to the lookup table by term
+// private because it is a helper
+fn addToEntriesByTerm(goalSystem: &mut GoalSystem, e: &Arc<RwLock<Entry>>) {
+    let term: Term = (*(e.read().sentence.term)).clone();
+    goalSystem.entriesByTerm.entry(term).or_insert_with(|| RwLock::new(vec![])).write().push(Arc::clone(e));
+}
+
 
 /// handler to build a procedural pseudo-event for proc / Q&A bridge
 pub struct QaProcHandlerImpl {
-- 
2.43.0


From c4c6c97fb9db5fc1646b60e7f38235214b832eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:48 +0000
Subject: [PATCH 18/30] fix: goals of the active set were counted twice by the
 goal memory limit, so better goals were dropped

---
 src/NarGoalSystem.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/NarGoalSystem.rs b/src/NarGoalSystem.rs
index 82ccd74..9119875 100644
--- a/src/NarGoalSystem.rs
+++ b/src/NarGoalSystem.rs
@@ -422,11 +422,7 @@ fn checkSetContains(set: &Vec< Arc<RwLock<Entry>> >, s: &Sentence) -> bool {
 /// called when it has to stay under AIKR
 /// /param t is the procedural reasoner NAR time
 pub fn limitMemory(goalSystem: &Arc<RwLock<GoalSystem>>, mem2: &Mem2, t: i64) {
-    let mut arr:Vec<Arc<RwLock<Entry>>> = retEntries(&goalSystem.read()); // working array with all entries
-    
-    for iv in &goalSystem.read().activeSet.set {
-        arr.push(Arc::clone(&iv));
-    }
+    let mut arr:Vec<Arc<RwLock<Entry>>> = retEntries(&goalSystem.read()); // working array with all entries (includes the active set)
 
     dbg(&format!("nEntries={}", arr.len()));
 
-- 
2.43.0


From 02bc52ed144ff1d6de92c494e520ec6d30884bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:48 +0000
Subject: [PATCH 19/30] fix: ^nlpRel0 crashed on unary and truncated longer
 products of the relation

---
 src/OpLib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OpLib.rs b/src/OpLib.rs
index cbda5f8..545349e 100644
--- a/src/OpLib.rs
+++ b/src/OpLib.rs
@@ -104,7 +104,7 @@ impl NarProc::Op for Op__nlp_rel_0 {
         let rewrittenRel:Term = match rel.clone() {
             Term::Stmt(Copula::INH, subj, pred) => {
                 match *subj {
-                    Term::Prod(arr) => {
+                    Term::Prod(arr) if arr.len() == 2 => {
                         let right:Term = (*arr[1]).clone();
                         let rewrittenRight:Term = match right {
                             Term::Seq(arr) if arr.len() == 3 && checkEqTerm(&arr[1], &Term::Name("and".to_string())) => {
-- 
2.43.0


From ec25ea34cb4b88cc02fbe76e9e22270c76df75d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:48 +0000
Subject: [PATCH 20/30] fix: chaos environment passed no declarative memory to
 the reasoner, which crashed

---
 src/ProcChaosEntry.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ProcChaosEntry.rs b/src/ProcChaosEntry.rs
index 218c733..5ae621e 100644
--- a/src/ProcChaosEntry.rs
+++ b/src/ProcChaosEntry.rs
@@ -39,7 +39,7 @@ pub fn procChaosEntry() {
 
         nar.procNar.trace.event_happened( Rc::new(NarProc::SimpleSentence {name:Term::Name(format!("{}",t)),evi:nar.procNar.t,occT:nar.procNar.t}) );
 
-        NarProc::narStep1(&mut nar.procNar, &None);
+        NarProc::narStep1(&mut nar.procNar, &Some(Arc::clone(&nar.mem)));
         
         
         
-- 
2.43.0


From 0d2c727039dc4e97b1af4b04a911b28039e6267b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:52 +0000
Subject: [PATCH 21/30] fix: text which remains after the term must not be
 ignored silently by the parser

---
 src/NarseseParser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/NarseseParser.rs b/src/NarseseParser.rs
index f64c871..70120e2 100644
--- a/src/NarseseParser.rs
+++ b/src/NarseseParser.rs
@@ -92,10 +92,10 @@ pub fn parseNarsese(narsese:&String) -> Option<(Term, Tv, EnumPunctation, bool)>
   let parsed:IResult<&str, Term> = parseEntry(&narseseInner);
 
   match parsed {
-    Ok((_str2, term)) => {
+    Ok((rest, term)) if rest.trim().len() == 0 => { // the whole text must be the term
       Some((term, tv, punctation, isEvent))
     },
-    Err(_) => {
+    _ => {
       None
     }
   }
-- 
2.43.0


From 4f144daa622894f9c68ba4f06cf92f20a0c4958d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:17 +0000
Subject: [PATCH 22/30] fix: parsing of nested parentheses took time
 exponential in the depth, so a short line could block the reasoner

---
 src/NarseseParser.rs | 123 +++++++++++++------------------------------
 1 file changed, 37 insertions(+), 86 deletions(-)

diff --git a/src/NarseseParser.rs b/src/NarseseParser.rs
index 70120e2..7214d2c 100644
--- a/src/NarseseParser.rs
+++ b/src/NarseseParser.rs
@@ -537,29 +537,48 @@ fn indepVar(input:&str) -> IResult<&str, Term> {
 }
 
 // /param enStatement enable parsing of statement
-fn parseSubjOrPred(input: &str, _enStatement:bool) -> IResult<&str, Term> {
-  {
-    let res0 = a(input);
-    match res0 {
-      Ok(term) => {
-        return Ok(term.clone())
-      },
-      Err(_) => {}, // try other choice
+/// parses a term in parentheses
+///
+/// what it is is decided by the connectives between its components, because trying every possibility takes time
+/// exponential in the depth of the nesting
+fn parseParenthesized(input: &str) -> IResult<&str, Term> {
+  if input.starts_with("(!") {
+    return parseNeg(input);
+  }
+
+  let (mut rest, _) = tag("(")(input)?;
+
+  let mut connectives: Vec<&str> = vec![]; // connectives between the components
+  let mut depth = 0;
+  while let Some(c) = rest.chars().next() {
+    let connective = [",", "|", "&&", "&", "*", " /1 ", " /2 "].iter().find(|v| depth == 0 && rest.starts_with(**v));
+    match (connective, c) {
+      (Some(v), _) => {connectives.push(v);},
+      (None, '(') => {depth += 1;},
+      (None, ')') if depth == 0 => {break;}, // end of the term
+      (None, ')') => {depth -= 1;},
+      _ => {},
     }
+    rest = &rest[connective.map_or(c.len_utf8(), |v| v.len())..];
   }
 
-  {
-    let res0 = parseSeq(input);
-    match res0 {
-      Ok(term) => {
-        return Ok(term.clone())
-      },
-      Err(_) => {}, // try other choice
-    }
+  match (connectives.first().copied(), connectives.len()) {
+    (Some(","), _) => parseSeq(input),
+    (Some("|"), _) => parseIntInt2(input),
+    (Some("&"), _) => parseExtInt2(input),
+    (Some("*"), _) => parseProd(input),
+    (Some(" /1 "), _) => parseImg0(input),
+    (Some(" /2 "), _) => parseImg1(input),
+    (Some("&&"), 1) => parseConj2(input),
+    (Some("&&"), 2) => parseConj3(input),
+    (Some("&&"), 3) => parseConj4(input),
+    _ => b(input), // isn't a term
   }
+}
 
+fn parseSubjOrPred(input: &str, _enStatement:bool) -> IResult<&str, Term> {
   {
-    let res0 = parseIntInt2(input);
+    let res0 = a(input);
     match res0 {
       Ok(term) => {
         return Ok(term.clone())
@@ -569,7 +588,7 @@ fn parseSubjOrPred(input: &str, _enStatement:bool) -> IResult<&str, Term> {
   }
 
   {
-    let res0 = parseExtInt2(input);
+    let res0 = parseParenthesized(input);
     match res0 {
       Ok(term) => {
         return Ok(term.clone())
@@ -588,74 +607,6 @@ fn parseSubjOrPred(input: &str, _enStatement:bool) -> IResult<&str, Term> {
     }
   }
 
-  {
-    let res0 = parseNeg(input);
-    match res0 {
-      Ok(term) => {
-        return Ok(term.clone())
-      },
-      Err(_) => {}, // try other choice
-    }
-  }
-
-  {
-    let res0 = parseProd(input);
-    match res0 {
-      Ok(term) => {
-        return Ok(term.clone())
-      },
-      Err(_) => {}, // try other choice
-    }
-  }
-
-  {
-    let res0 = parseImg0(input);
-    match res0 {
-      Ok(term) => {
-        return Ok(term.clone())
-      },
-      Err(_) => {}, // try other choice
-    }
-  }
-
-  {
-    let res0 = parseImg1(input);
-    match res0 {
-      Ok(term) => {
-        return Ok(term.clone())
-      },
-      Err(_) => {}, // try other choice
-    }
-  }
-
-  {
-    let res0 = parseConj2(input);
-    match res0 {
-      Ok(term) => {
-        return Ok(term.clone())
-      },
-      Err(_) => {}, // try other choice
-    }
-  }
-  {
-    let res0 = parseConj3(input);
-    match res0 {
-      Ok(term) => {
-        return Ok(term.clone())
-      },
-      Err(_) => {}, // try other choice
-    }
-  }
-  {
-    let res0 = parseConj4(input);
-    match res0 {
-      Ok(term) => {
-        return Ok(term.clone())
-      },
-      Err(_) => {}, // try other choice
-    }
-  }
-
   {
     let res0 = parseStatement(input);
     match res0 {
-- 
2.43.0


From 68b07857690af4bdfbb45aa226d66909019360c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:58 +0000
Subject: [PATCH 23/30] fix: names with non-ASCII letters were cut at the wrong
 place by the parser

---
 src/NarseseParser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/NarseseParser.rs b/src/NarseseParser.rs
index 7214d2c..ad94dd1 100644
--- a/src/NarseseParser.rs
+++ b/src/NarseseParser.rs
@@ -1,7 +1,7 @@
 
 use nom::{
   IResult,
-  bytes::complete::{tag, take_while_m_n},
+  bytes::complete::{tag, take_while1},
   combinator::map_res,
   //Err,
 //  sequence::tuple,
@@ -492,7 +492,7 @@ fn isValidSign(c: char) -> bool {
 
 fn alpha2(input: &str) -> IResult<&str, &str> {
   map_res(
-    take_while_m_n(1, 512, isValidSign),
+    take_while1(isValidSign), // not take_while_m_n(), which confuses byte and character positions for non-ASCII text
     ok1
   )(input)
 }
-- 
2.43.0


From 3939e262e2d7e51884b925f0f3ab3d7b7a1a1e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:40 +0000
Subject: [PATCH 24/30] fix: a sentence with deeply nested brackets overflowed
 the stack of the parser and aborted the process

---
 src/NarseseParser.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/NarseseParser.rs b/src/NarseseParser.rs
index ad94dd1..f965f93 100644
--- a/src/NarseseParser.rs
+++ b/src/NarseseParser.rs
@@ -46,6 +46,28 @@ pub fn parseNarseseRetTv(narsese:&mut String, tv:&mut Tv) {
   }
 }
 
+/// returns how deep the brackets of the text are nested
+fn calcNesting(narsese:&str) -> i64 {
+  let mut depth:i64 = 0;
+  let mut maxDepth:i64 = 0;
+  for iWord in narsese.split(' ') {
+    match iWord {
+      "-->" | "<->" | "==>" | "=/>" | "<=>" => {}, // copula, contains no brackets
+      _ => {
+        for iChar in iWord.chars() {
+          match iChar {
+            '(' | '<' | '{' | '[' => {depth+=1;},
+            ')' | '>' | '}' | ']' => {depth-=1;},
+            _ => {}
+          }
+          maxDepth = maxDepth.max(depth);
+        }
+      }
+    }
+  }
+  maxDepth
+}
+
 pub fn parseNarsese(narsese:&String) -> Option<(Term, Tv, EnumPunctation, bool)> {
   let mut narsese2:String = narsese.clone();
 
@@ -89,6 +111,10 @@ pub fn parseNarsese(narsese:&String) -> Option<(Term, Tv, EnumPunctation, bool)>
   //println!("f = {}", tv.f);
   //println!("c = {}", tv.c);
 
+  if calcNesting(&narseseInner) > 100 { // the parser is recursive, deeper nested input would overflow the stack
+    return None;
+  }
+
   let parsed:IResult<&str, Term> = parseEntry(&narseseInner);
 
   match parsed {
-- 
2.43.0


From e4b6fbcda75c6aed65f9bfa9a41b669d597b096a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:05 +0000
Subject: [PATCH 25/30] fix: a client which disconnects before it is accepted
 must not end the server

---
 src/NarServer.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/NarServer.rs b/src/NarServer.rs
index c31fcdf..e13d865 100644
--- a/src/NarServer.rs
+++ b/src/NarServer.rs
@@ -13,6 +13,7 @@ use parking_lot::RwLock;
 use std::sync::mpsc::channel;
 use std::sync::mpsc::Sender;
 use std::thread;
+use std::time::Duration;
 
 use crate::Term::{Term, convTermToStr};
 use crate::Nar::*;
@@ -28,8 +29,18 @@ async fn acceptLoop(addr: impl ToSocketAddrs + async_std::net::ToSocketAddrs, tx
     let mut incoming = listener.incoming();
     
     while let Some(stream) = incoming.next().await {
-        let stream = stream?;
-        println!("Accepting from: {}", stream.peer_addr()?);
+        let stream = match stream {
+            Ok(stream) => stream,
+            Err(error) => { // must not end the server, the other clients are not affected
+                println!("accept failed: {}", error);
+                task::sleep(Duration::from_millis(50)).await;
+                continue;
+            }
+        };
+        match stream.peer_addr() {
+            Ok(addr) => println!("Accepting from: {}", addr),
+            Err(_) => {continue;} // client has disconnected already
+        }
         let _handle = task::spawn(connectionLoop(stream, tx.clone(), global.clone()));
     }
 
-- 
2.43.0


From 4e1f855c8263620a9dc3bf795ce121560b1c6ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:30 +0000
Subject: [PATCH 26/30] fix: long broadcasts were sent only in part when the
 client reads slowly

---
 src/NarServer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarServer.rs b/src/NarServer.rs
index e13d865..1c41868 100644
--- a/src/NarServer.rs
+++ b/src/NarServer.rs
@@ -78,7 +78,7 @@ async fn connectionLoop(stream: TcpStream, tx: Sender<String>, global:Arc<Mutex<
         
         for iLine in &toSend {
             // send broadcasted to stream
-            writer.write((iLine.to_owned()+"\n").as_bytes()).await;
+            writer.write_all((iLine.to_owned()+"\n").as_bytes()).await;
             writer.flush().await;
         }
 
-- 
2.43.0


From 12827801f1dbf3cf82182cd3f93559fb96e52cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:02 +0000
Subject: [PATCH 27/30] fix: circles are drawn with their radius, not its
 square root

---
 src/Map2d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Map2d.rs b/src/Map2d.rs
index aba5fcb..00b03fb 100644
--- a/src/Map2d.rs
+++ b/src/Map2d.rs
@@ -53,7 +53,7 @@ pub fn map2dDrawBox<T:Copy>(m:&mut Map2d<T>, cx:i32,cy:i32,w:i32,h:i32,v:T) {
 pub fn map2dDrawCircle<T:Copy>(m:&mut Map2d<T>, cx:i32,cy:i32,r:i32,v:T) {
     for iy in -(r+1)..r+1 {
         for ix in -(r+1)..r+1 {
-            if ix*ix+iy*iy <= r {
+            if ix*ix+iy*iy <= r*r {
                 writeAt(m,cy+iy,cx+ix, v);
             }
         }
-- 
2.43.0


From d4a559bbb8ca3a80c98540528ff09afa6fc9d3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:02 +0000
Subject: [PATCH 28/30] fix: lines are drawn over their whole length
 (projection with the normalized direction)

---
 src/Map2d.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Map2d.rs b/src/Map2d.rs
index 00b03fb..5ae9d40 100644
--- a/src/Map2d.rs
+++ b/src/Map2d.rs
@@ -90,8 +90,8 @@ pub fn drawLine<T:Copy>(m:&mut Map2d<T>, ax:i32,ay:i32,bx:i32,by:i32,v:T) {
             }
 
             // projected
-            let px = (ax as f64) + dotRes*fdiffx;
-            let py = (ay as f64) + dotRes*fdiffy;
+            let px = (ax as f64) + dotRes*nfdiffx;
+            let py = (ay as f64) + dotRes*nfdiffy;
 
             let diff2x = (ix as f64) - px;
             let diff2y = (iy as f64) - py;
-- 
2.43.0


From 3c76527571aa208fd803fa15fc095b5a4124a2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:02 +0000
Subject: [PATCH 29/30] fix: convolution uses the whole kernel also when its
 size is odd

---
 src/ModVisionC.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ModVisionC.rs b/src/ModVisionC.rs
index f7f9dfc..2aa8fc9 100644
--- a/src/ModVisionC.rs
+++ b/src/ModVisionC.rs
@@ -9,8 +9,8 @@ pub fn convWithoutBorder(v:&Map2d<f64>, kernel:&Map2d<f64>) -> Map2d<f64> {
 
             let mut acc:f64 = 0.0;
 
-            for idy in -kernel.h/2..kernel.h/2 {
-                for idx in -kernel.w/2..kernel.w/2 {
+            for idy in -(kernel.h/2)..kernel.h-kernel.h/2 {
+                for idx in -(kernel.w/2)..kernel.w-kernel.w/2 {
                     let kx = kernel.w/2+idx; // kernel x
                     let ky = kernel.h/2+idy;
                     
@@ -30,8 +30,8 @@ pub fn convo(v:&Map2d<f64>, kernel:&Map2d<f64>) -> Map2d<f64> {
     for iy in 0..v.h {
         for ix in 0..v.w {
             let mut acc:f64 = 0.0;
-            for idy in -kernel.h/2..kernel.h/2 {
-                for idx in -kernel.w/2..kernel.w/2 {
+            for idy in -(kernel.h/2)..kernel.h-kernel.h/2 {
+                for idx in -(kernel.w/2)..kernel.w-kernel.w/2 {
                     let kx = kernel.w/2+idx; // kernel x
                     let ky = kernel.h/2+idy;
                     
-- 
2.43.0


From 91db6ef0982891c6cff3420a2a51ac4f221b5f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:02 +0000
Subject: [PATCH 30/30] fix: sign in the quotient rule of automatic
 differentiation

---
 src/ad.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ad.rs b/src/ad.rs
index e9cfdf6..61363ac 100644
--- a/src/ad.rs
+++ b/src/ad.rs
@@ -20,7 +20,7 @@ pub fn mul(a: &Ad,b: &Ad) -> Ad {
 }
 
 pub fn div(a: &Ad,b: &Ad) -> Ad {
-    let z=a.r*b.d+a.d*b.r;
+    let z=a.d*b.r-a.r*b.d;
     Ad{r:a.r/b.r,d:z/(b.r*b.r)}
 }
 
-- 
2.43.0

