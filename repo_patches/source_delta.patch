From a5fbbaf5b5214d0be4b52adbd53cbc0879b61163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:19 +0000
Subject: [PATCH 01/15] fix: expand every word exactly once

Quoted text, variable values and captured output were scanned again for quotes,
blanks and substitutions; '$' inside double quotes ate a character or panicked;
substitutions closed their pipe twice and waited before reading; assignment
values and redirection file names were not expanded.
---
 src/ast.rs  | 234 ++++++++++++++++++++++------------------------------
 src/eval.rs |   8 +-
 2 files changed, 101 insertions(+), 141 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 8051d66..589fc30 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -278,63 +278,65 @@ impl SimpleCommand {
         }
     }
 
-    pub fn expand_vars(&mut self) {
-
-        if self.prefix.is_some() {
-            for word in self.prefix.as_mut().unwrap().assignment.iter_mut() {
-                if word.contains("$") {
-                    let mut split = word.split("=");
-                    let var = split.next().unwrap();
-                    let val = split.next().unwrap();
-                    let val = match shell::expand_var(val) {
-                        Some(expanded) => {
-                            expanded
-                        }
-                        None => {
-                            val.to_string()
-                        }
-                    };
-                    *word = format!("{}={}", var, val);
+    /// Expands every part of the command exactly once: the values of assignments, the names
+    /// of redirection files, the name of the command and its arguments.
+    pub fn expand(&mut self) {
+        if let Some(prefix) = self.prefix.as_mut() {
+            for word in prefix.assignment.iter_mut() {
+                *word = Self::expand_assignment(word);
+            }
+            Self::expand_filenames(&mut prefix.io_redirect);
+        }
+        if !self.name.is_empty() {
+            self.name = Self::expand_word(&self.name);
+        }
+        if let Some(suffix) = self.suffix.as_mut() {
+            for word in suffix.word.iter_mut() {
+                if word.contains('=') && !word.starts_with(['"', '\'', '`', '$']) {
+                    *word = Self::expand_assignment(word);
+                }
+                else {
+                    *word = Self::expand_word(word);
                 }
             }
+            Self::expand_filenames(&mut suffix.io_redirect);
         }
+    }
 
-        if self.name.starts_with("$") {
-            let mut chars = self.name.chars();
-            chars.next();
-            match shell::expand_var(&chars.collect::<String>()) {
-                Some(name) => {
-                    self.name = name;
-                }
-                None => {}
+    fn expand_filenames(redirects: &mut Vec<IoRedirect>) {
+        for redirect in redirects.iter_mut() {
+            if let Some(io_file) = redirect.io_file.as_mut() {
+                io_file.filename = Self::expand_word(&io_file.filename);
             }
         }
-        if self.suffix.is_none() {
-            return;
+    }
+
+    /// Expands the value of a 'name=value' word.
+    fn expand_assignment(word: &str) -> String {
+        match word.split_once('=') {
+            Some((name, value)) => format!("{}={}", name, Self::expand_word(value)),
+            None => word.to_string(),
         }
-        for word in self.suffix.as_mut().unwrap().word.iter_mut() {
-            if word.starts_with("$") {
-                let mut chars = word.chars();
-                chars.next();
-                match shell::expand_var(&chars.collect::<String>()) {
-                    Some(expanded) => {
-                        *word = expanded;
-                    }
-                    None => {}
-                }
-            }
+    }
+
+    /// Turns a word as it was written into its value. The result is never looked at again.
+    fn expand_word(word: &str) -> String {
+        let expanded = if word.starts_with('"') || word.starts_with('\'') {
+            let mut new_word = word.to_string();
+            Self::cut_quotes(&mut new_word);
+            new_word
         }
-        /*self.suffix.as_mut().unwrap().word.iter_mut().for_each(|word| {
-            println!("word: {}", word);
-            if word.starts_with("$") {
-                match shell::expand_var(&word[1..]) {
-                    Some(expanded) => {
-                        *word = expanded;
-                    }
-                    None => {}
-                }
-            }
-        });*/
+        else if word.starts_with("$(") || word.starts_with('`') {
+            Self::eval_subshell(word)
+        }
+        else if let Some(name) = word.strip_prefix('$') {
+            shell::expand_var(name).unwrap_or_else(|| word.to_string())
+        }
+        else {
+            word.to_string()
+        };
+        // no argument, variable or file name can hold a NUL
+        expanded.replace('\0', "")
     }
 
 
@@ -342,10 +344,10 @@ impl SimpleCommand {
         let mut subshell = String::new();
 
         if chr == '$' {
-            let Some(c) = chars.next() else { panic!("Unexpected EOF") };
             subshell.push(chr);
-            if c == '(' {
-                subshell.push(c);
+            if chars.as_str().starts_with('(') {
+                chars.next();
+                subshell.push('(');
                 while let Some(c) = chars.next() {
                     if c == ')' {
                         subshell.push(c);
@@ -391,29 +393,52 @@ impl SimpleCommand {
         let subshell = &chars.collect::<String>();
 
         let lexer = Lexer::new(&subshell);
-        let mut ast = grammar::CompleteCommandParser::new()
-            .parse(&subshell,lexer)
-            .unwrap();
+        let mut ast = match grammar::CompleteCommandParser::new().parse(&subshell,lexer) {
+            Ok(ast) => ast,
+            Err(e) => {
+                eprintln!("Error: {:?}", e);
+                return String::new();
+            }
+        };
 
-        let pip: (RawFd,RawFd) = nix::unistd::pipe().unwrap();
+        let pip: (RawFd,RawFd) = match nix::unistd::pipe() {
+            Ok(pip) => pip,
+            Err(e) => {
+                eprintln!("Failed to create pipe: {}", e);
+                return String::new();
+            }
+        };
 
-        match unsafe {nix::unistd::fork().expect("failed to fork")} {
-            nix::unistd::ForkResult::Parent { child } => {
+        match unsafe {nix::unistd::fork()} {
+            Ok(nix::unistd::ForkResult::Parent { child }) => {
                 nix::unistd::close(pip.1).unwrap();
-                let mut buf = String::new();
+                let mut buf = Vec::new();
                 let mut file = unsafe { File::from_raw_fd(pip.0) };
-                waitpid(child, None).unwrap();
-                file.read_to_string(&mut buf).unwrap();
-                nix::unistd::close(pip.0).unwrap();
-                buf.trim().to_string()
+                // the output has to be read before waiting, or the child blocks on a full pipe
+                if let Err(e) = file.read_to_end(&mut buf) {
+                    eprintln!("Failed to read output: {}", e);
+                }
+                while waitpid(child, None) == Err(nix::errno::Errno::EINTR) {}
+                String::from_utf8_lossy(&buf).trim().to_string()
             },
-            nix::unistd::ForkResult::Child => {
-                nix::unistd::dup2(pip.1, 1).unwrap();
-                nix::unistd::dup2(pip.1, 2).unwrap();
-                nix::unistd::close(pip.1).unwrap();
+            Ok(nix::unistd::ForkResult::Child) => {
+                shell::set_forked(true);
+                crate::jobs::fork_reset();
+                if pip.1 != 1 {
+                    nix::unistd::dup2(pip.1, 1).unwrap();
+                    nix::unistd::close(pip.1).unwrap();
+                }
+                nix::unistd::close(pip.0).unwrap();
+                if let Err(e) = crate::eval::eval(&mut ast) {
+                    eprintln!("{}", e);
+                }
+                std::process::exit(crate::eval::get_exit_code());
+            }
+            Err(e) => {
+                eprintln!("Failed to fork: {}", e);
                 nix::unistd::close(pip.0).unwrap();
-                let _ = crate::eval::eval(&mut ast);
-                std::process::exit(0);
+                nix::unistd::close(pip.1).unwrap();
+                String::new()
             }
         }
     }
@@ -552,10 +577,13 @@ impl SimpleCommand {
     fn cut_quotes(word: &mut String) {
         let mut chars = word.chars();
         let mut try_expand_subshell = false;
-        if chars.next() == Some('"') {
+        let quote = chars.next();
+        if quote == Some('"') {
             try_expand_subshell = true;
         }
-        chars.next_back();
+        if chars.as_str().ends_with(quote.unwrap_or('"')) {
+            chars.next_back();
+        }
 
 
         if try_expand_subshell {
@@ -579,70 +607,6 @@ impl SimpleCommand {
         *word = chars.collect::<String>();
     }
 
-    pub fn eval(&mut self) {
-        if self.name.as_str() == "" {
-            return;
-        }
-        if self.name.starts_with('\'') {
-            Self::cut_quotes(&mut self.name);
-        }
-        let mut words = Vec::new();
-        for word in self.name.split_whitespace_ig_qts().iter() {
-            if word.starts_with('"') {
-                words.append(&mut Self::eval_double_quotes(word));
-            }
-            else {
-                words.push(word.to_string());
-            }
-        }
-        self.name = words.remove(0);
-        
-        if self.suffix.is_none() || self.suffix.as_ref().unwrap().word.is_empty() {
-            self.suffix = Some(Suffix {
-                io_redirect: Vec::new(),
-                word: words,
-            });
-            return;
-        }
-        else {
-            let mut new_words = words;
-            for word in self.suffix.as_ref().unwrap().word.iter() {
-                if word.starts_with('"') {
-                    new_words.append(&mut Self::eval_double_quotes(word));
-                }
-                else if word.starts_with('\'') {
-                    let mut new_word = word.to_string();
-                    Self::cut_quotes(&mut new_word);
-                    new_words.push(new_word);
-                }
-                else {
-                    new_words.push(word.to_string());
-                }
-            }
-            self.suffix.as_mut().unwrap().word = new_words;
-        }
-
-    }
-
-    fn eval_double_quotes(word: &str) -> Vec<String> {
-        if !word.contains("$(") && !word.contains("`") {
-            let mut new_word = word.to_string();
-            Self::cut_quotes(&mut new_word);
-            return vec![new_word];
-        }
-        let mut new_word = word.to_string();
-        Self::cut_quotes(&mut new_word);
-        let mut ret = Vec::new();
-        let eval = Self::eval_subshell(&new_word);
-        if eval.contains(" ") {
-            ret.append(&mut eval.split_whitespace().map(|word| word.to_string()).collect());
-        }
-        else {
-            ret.push(eval);
-        }
-        ret
-    }
-
     /*pub fn eval_double_quotes(&mut self) {
 
         eprintln!("\n\n{:?}", self.name.split_whitespace_ig_qts());
diff --git a/src/eval.rs b/src/eval.rs
index 1c83e5e..c5ddb12 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -352,10 +352,7 @@ fn eval_simple_command(simple_command: &mut SimpleCommand) -> Result<Option<(Pro
     log!("remove_single_quotes: {:?}", simple_command);*/
 
     simple_command.alias_lookup();
-    simple_command.expand_vars();
-    simple_command.eval();
-   
-    
+    simple_command.expand();
 
     //log!("eval_simple_command: {:?}", simple_command);
     
@@ -466,8 +463,7 @@ fn eval_builtin(command: &mut SimpleCommand) -> Result<Option<(Process,SimpleCom
 
 
     command.alias_lookup();
-    command.expand_vars();
-    command.eval();
+    command.expand();
 
 
     let result = call_builtin(command);
-- 
2.43.0


From 61e50a602ef21cc1fda79d939bfef7472d5d0911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:38 +0000
Subject: [PATCH 02/15] fix: start, wait for and reap jobs as a whole; run
 builtins and functions in any position

---
 src/ast.rs   |  18 +-
 src/eval.rs  | 594 +++++++++++++++++++++++++++++----------------------
 src/jobs.rs  | 306 ++++++++++----------------
 src/log.rs   |  27 +++
 src/shell.rs |  15 +-
 src/trap.rs  | 141 ++++--------
 6 files changed, 531 insertions(+), 570 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 589fc30..ae1a630 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -396,7 +396,7 @@ impl SimpleCommand {
         let mut ast = match grammar::CompleteCommandParser::new().parse(&subshell,lexer) {
             Ok(ast) => ast,
             Err(e) => {
-                eprintln!("Error: {:?}", e);
+                crate::errln!("Error: {:?}", e);
                 return String::new();
             }
         };
@@ -404,38 +404,36 @@ impl SimpleCommand {
         let pip: (RawFd,RawFd) = match nix::unistd::pipe() {
             Ok(pip) => pip,
             Err(e) => {
-                eprintln!("Failed to create pipe: {}", e);
+                crate::errln!("Failed to create pipe: {}", e);
                 return String::new();
             }
         };
 
-        match unsafe {nix::unistd::fork()} {
-            Ok(nix::unistd::ForkResult::Parent { child }) => {
+        match crate::eval::fork_shell() {
+            Ok(child) if child != nix::unistd::Pid::from_raw(0) => {
                 nix::unistd::close(pip.1).unwrap();
                 let mut buf = Vec::new();
                 let mut file = unsafe { File::from_raw_fd(pip.0) };
                 // the output has to be read before waiting, or the child blocks on a full pipe
                 if let Err(e) = file.read_to_end(&mut buf) {
-                    eprintln!("Failed to read output: {}", e);
+                    crate::errln!("Failed to read output: {}", e);
                 }
                 while waitpid(child, None) == Err(nix::errno::Errno::EINTR) {}
                 String::from_utf8_lossy(&buf).trim().to_string()
             },
-            Ok(nix::unistd::ForkResult::Child) => {
-                shell::set_forked(true);
-                crate::jobs::fork_reset();
+            Ok(_) => {
                 if pip.1 != 1 {
                     nix::unistd::dup2(pip.1, 1).unwrap();
                     nix::unistd::close(pip.1).unwrap();
                 }
                 nix::unistd::close(pip.0).unwrap();
                 if let Err(e) = crate::eval::eval(&mut ast) {
-                    eprintln!("{}", e);
+                    crate::errln!("{}", e);
                 }
                 std::process::exit(crate::eval::get_exit_code());
             }
             Err(e) => {
-                eprintln!("Failed to fork: {}", e);
+                crate::errln!("Failed to fork: {}", e);
                 nix::unistd::close(pip.0).unwrap();
                 nix::unistd::close(pip.1).unwrap();
                 String::new()
diff --git a/src/eval.rs b/src/eval.rs
index c5ddb12..05294ab 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -6,13 +6,16 @@ use crate::builtins;
 use crate::shell;
 use crate::trap;
 use nix::errno::Errno;
+use nix::fcntl::{fcntl, FcntlArg, FdFlag};
+use nix::sys::signal::SigSet;
 use nix::sys::wait::WaitStatus;
 use std::fs::OpenOptions;
-use std::os::unix::io::AsRawFd;
-use std::mem;
+use std::os::unix::io::IntoRawFd;
+use std::io::Write;
 use std::env;
-use std::sync::atomic::{AtomicI32, Ordering};
-use crate::log;
+use std::sync::atomic::{AtomicBool, AtomicI32, AtomicUsize, Ordering};
+use crate::errln;
+use crate::outln;
 
 use std::os::unix::io::RawFd;
 use nix::unistd::{close, dup2, pipe,execv, fork, getpid, setpgid, ForkResult, Pid};
@@ -20,6 +23,22 @@ use nix::unistd::{close, dup2, pipe,execv, fork, getpid, setpgid, ForkResult, Pi
 /// Stores the exit status of the last command
 pub static mut EXIT_STATUS: AtomicI32 = AtomicI32::new(0);
 
+/// Set while a 'return' ends the function it was run in
+static RETURNING: AtomicBool = AtomicBool::new(false);
+/// How many functions are being run
+static FUNCTION_DEPTH: AtomicUsize = AtomicUsize::new(0);
+/// How many evaluations are going on within each other
+static EVAL_DEPTH: AtomicUsize = AtomicUsize::new(0);
+/// More evaluations than this within each other would exhaust the stack
+const MAX_DEPTH: usize = 200;
+
+/// ends the innermost function that is being run, if there is one
+pub fn return_from_function() {
+    if FUNCTION_DEPTH.load(Ordering::Relaxed) > 0 {
+        RETURNING.store(true, Ordering::Relaxed);
+    }
+}
+
 /// gets the exit status of the last command
 pub fn get_exit_status() -> WaitStatus {
     unsafe {
@@ -49,9 +68,19 @@ pub fn eval(ast: &mut CompleteCommand) -> Result<i32,String> {
         None => return Ok(0),
     };
 
-    let result = parse_tree(&mut list.0)?;
+    nested(|| parse_tree(&mut list.0))
+}
 
-    Ok(result)
+/// Runs an evaluation unless too many are going on within each other.
+fn nested<F>(evaluate: F) -> Result<i32,String>
+where F: FnOnce() -> Result<i32,String> {
+    if EVAL_DEPTH.load(Ordering::Relaxed) >= MAX_DEPTH {
+        return Err("Nested too deeply".to_string());
+    }
+    EVAL_DEPTH.fetch_add(1, Ordering::Relaxed);
+    let result = evaluate();
+    EVAL_DEPTH.fetch_sub(1, Ordering::Relaxed);
+    result
 }
 
 /// This is where we evaluate a CompletCommand's list which is a Vec<AndOr>
@@ -63,6 +92,9 @@ fn parse_tree(list: &mut Vec<AndOr>) -> Result<i32,String> {
     for and_or in list.iter_mut() {
 
         status = eval_and_or(and_or)?;
+        if RETURNING.load(Ordering::Relaxed) {
+            break;
+        }
     } 
 
     Ok(status)
@@ -80,6 +112,9 @@ fn eval_and_or(and_or: &mut AndOr) -> Result<i32,String> {
     }
     else {
         let status = eval_and_or(and_or.and_or.as_mut().unwrap())?;
+        if RETURNING.load(Ordering::Relaxed) {
+            return Ok(status);
+        }
         match and_or.conditional_exec {
             Some(ConditionalExec::And) => {
                 if status != 0 {
@@ -102,215 +137,262 @@ fn eval_and_or(and_or: &mut AndOr) -> Result<i32,String> {
 }
 
 /// This is where we evaluate a pipeline
-/// We iterate through the pipeline and evaluate each command in the pipeline
-/// If the evaluation creates Processes we then create a Job and execute the job.
+/// A single foreground builtin, function or function definition is run by the shell itself.
+/// Everything else becomes a Job with one Process per command. Every command of such a Job runs in a
+/// child of its own, also when it is a builtin or a function.
 /// If the job is not a background job we wait for the job to finish and return the status
-/// Functions are handled here in a special way. If the function is not in the background, we
-/// execute the function before going into the the fork and exec loop, removing it from the pipeline.
-/// We also have to remove the job from the shell to prevent a panic when trying to wait for the job.
-/// If the function is in the background we just add it to the pipeline and let the fork and exec loop
-/// handle it.
 /// Interupts are blocked during the fork and exec part to prevent being interupted by a signal.
 fn eval_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
 
     let background = pipeline.background;
-    let mut pipeline: &mut PipeSequence = &mut pipeline.pipe_sequence;
-    
+    let bang = pipeline.bang;
+    let pipeline: &mut PipeSequence = &mut pipeline.pipe_sequence;
+
     let mut processes = Vec::new();
     let mut commands = Vec::new();
 
-    //block interrupts
-    trap::interrupts_off();
     for command in pipeline.iter_mut() {
-        let process = eval_command(command)?;
-        if process.is_none() {
-            break;   
-        }
-        else {
-            let (process, smc) = process.unwrap();
-            processes.push(process);
-            commands.push(smc);
-        }
+        let (process, command) = eval_command(command)?;
+        processes.push(process);
+        commands.push(command);
     }
-    
-    if processes.len() == 0 {
-        return Ok(0);
+
+    let mut status = if !background && commands.len() == 1 && runs_in_shell(&commands[0]) {
+        run_in_shell(&mut commands[0])
     }
-   
-    let mut remove_index: Vec<usize> = Vec::new();
-    
-    if !background {
-        for (index,command) in commands.iter_mut().enumerate() {
-            if shell::is_function(&command.name) {
-                remove_index.push(index);
-            
-                let result = eval_function(command);
-                
-                match result {
-                    Ok(_) => {},
-                    Err(_) => {
-                        eprintln!("{}: Command not found\n", command.name);
-                        std::process::exit(1);
-                    }
-                }
-                if shell::get_forked() {
-                    std::process::exit(0);
-                }
-                else {
-                    set_exit_status(0);
-                }
-            }
+    else {
+        //block interrupts
+        trap::interrupts_off();
+        let status = run_job(processes, commands, background);
+        //unblock interrupts
+        trap::interrupts_on();
+        status
+    };
 
-        }
-        for index in remove_index.iter().rev() {
-            processes.remove(*index);
-            commands.remove(*index);
-        }
+    if bang {
+        status = if status == 0 { 1 } else { 0 };
     }
+    set_exit_status(status);
 
-    
+    Ok(status)
+}
+
+/// This function starts the processes of a job and waits for them if the job is in the foreground.
+/// If a process cannot be started, no later one is started either and the job fails.
+fn run_job(processes: Vec<Process>, mut commands: Vec<Command>, background: bool) -> i32 {
 
-    let proc_count;
-    // this code block is to ensure that the mutable borrow is dropped before sigchld is handled
-        let job = shell::create_job(processes, background);
+    let mut failure = None;
+    let job = shell::create_job(processes, background);
+    // the job must not be borrowed while a child evaluates its command or while we wait
     {
-        let mut job = job.borrow_mut();
-        let job_id = job.job_id;
-        let procs = job.borrow_processes_mut();
+        let job_id = job.borrow().job_id;
+        let mut procs = std::mem::take(job.borrow_mut().borrow_processes_mut());
 
-            
         let mut pgid = None;
 
-        let mut pip: (RawFd,RawFd) = (-1,-1);
+        let mut pip: (RawFd,RawFd);
         let mut prev_fd: RawFd = -1;
         let mut count: usize = 0;
-        proc_count = procs.len();
+        let proc_count = procs.len();
         for process in procs.iter_mut() {
-            pip.1 = -1;
+            pip = (-1,-1);
             if count < proc_count - 1 {
-                let pipe_result = pipe();
-                if pipe_result.is_err() {
-                    return Err("Failed to create pipe".to_string());
+                match pipe() {
+                    Ok(result) => pip = result,
+                    Err(e) => {
+                        failure = Some(format!("Failed to create pipe: {}", e));
+                        break;
+                    }
                 }
-                pip = pipe_result.unwrap();
             }
-            
-            
 
-            let temp_fork_result = temp_fork(process);
-            if temp_fork_result == Ok(Pid::from_raw(0)) {
-                if pgid.is_none() {
-                    pgid = Some(getpid());
-                }
-                let pid = getpid();
-                if background {
-                    setpgid(pid, pgid.unwrap()).unwrap();
-                }
+            match temp_fork(process) {
+                Ok(pid) if pid == Pid::from_raw(0) => {
+                    shell::delete_job(job_id);
+                    if background {
+                        let pid = getpid();
+                        let _ = setpgid(pid, pgid.unwrap_or(pid));
+                    }
 
-                //unblock interrupts
-                if pip.1 >= 0 {
-                    close(pip.0).unwrap();
-                }
-                if prev_fd > 0 {
-                    dup2(prev_fd, 0).unwrap();
-                    close(prev_fd).unwrap();
-                }
-                if pip.1 > 1 {
-                    dup2(pip.1, 1).unwrap();
-                    close(pip.1).unwrap();
-                }
+                    if prev_fd > 0 {
+                        dup2(prev_fd, 0).unwrap();
+                        close(prev_fd).unwrap();
+                    }
+                    if pip.0 >= 0 {
+                        close(pip.0).unwrap();
+                    }
+                    if pip.1 > 1 {
+                        dup2(pip.1, 1).unwrap();
+                        close(pip.1).unwrap();
+                    }
 
-                eval_prefix_suffix(commands[count].prefix_suffix());
-                
-                //println!("executing: {:?}", process.argv);
-                
-                if shell::is_function(&commands[count].name) {
-                    let result = eval_function(&mut commands[count]);
-                    
-                    match result {
-                        Ok(_) => {},
-                        Err(_) => {
-                            eprintln!("{}: Command not found\n", commands[count].name);
-                            std::process::exit(1);
-                        }
+                    std::process::exit(run_in_child(&mut commands[count], process));
+                },
+                Ok(pid) => {
+                    if background {
+                        let _ = setpgid(pid, *pgid.get_or_insert(pid));
                     }
-                    std::process::exit(0);
-                }
-                else {
-                    match temp_exec(process) {
-                        Ok(_) => {},
-                        Err(_) => { 
-                            eprintln!("{}: Command not found\n", process.cmd);
-                            std::process::exit(1);
-                        },
+                    shell::update_pid_table(job_id, pid);
+                },
+                Err(e) => {
+                    failure = Some(format!("Failed to fork: {}", e));
+                    if pip.1 >= 0 {
+                        close(pip.0).unwrap();
+                        close(pip.1).unwrap();
                     }
-                    unreachable!();
+                    break;
                 }
             }
-            else if matches!(temp_fork_result, Ok(_)) {
-                shell::update_pid_table(job_id, temp_fork_result.unwrap());
-            }
+
             if prev_fd >= 0 {
                 close(prev_fd).unwrap();
             }
             prev_fd = pip.0;
-            match close(pip.1) {
-                Ok(_) => {},
-                Err(_) => {}
+            if pip.1 >= 0 {
+                close(pip.1).unwrap();
             }
 
             count += 1;
         }
-        
+        if prev_fd >= 0 {
+            close(prev_fd).unwrap();
+        }
+        procs.truncate(count);
+        *job.borrow_mut().borrow_processes_mut() = procs;
     }
-        if !background && proc_count > 0 && job.borrow().processes.len() > 0{
-            //eprintln!("waiting for job");
-            let status = jobs::wait_for_job(Some(job.clone()));
-            let id;
-            {
-                let job = job.borrow();
-                id = job.job_id;
-            }
-            shell::delete_job(id);
 
-            match status {
-                WaitStatus::Exited(_, status) => {
-                    set_exit_status(status);
-                },
-                _ => (),
+    if let Some(message) = &failure {
+        errln!("{}", message);
+    }
+
+    if job.borrow().processes.is_empty() {
+        let id = job.borrow().job_id;
+        shell::delete_job(id);
+        return 1;
+    }
+
+    if background {
+        outln!("[{}] ({}) {}", job.borrow().job_id, job.borrow().processes[0].pid, job.borrow());
+        return if failure.is_some() { 1 } else { 0 };
+    }
+
+    let status = jobs::exit_code(jobs::wait_for_job(Some(job.clone())));
+    if failure.is_some() { 1 } else { status }
+}
+
+/// This function runs a command in a child that was forked for it and returns the exit code.
+/// It only returns if the command is not a program or if the program cannot be run.
+fn run_in_child(command: &mut Command, process: &mut Process) -> i32 {
+    if let Command::SimpleCommand(simple_command) = command {
+        if let Err(message) = eval_prefix_suffix(simple_command.prefix_suffix(), &mut Vec::new()) {
+            errln!("{}", message);
+            return 1;
+        }
+        if !runs_in_shell(command) {
+            if let Err(message) = temp_exec(process) {
+                errln!("{}", message);
             }
+            return 1;
         }
-        else if background && proc_count > 0  && job.borrow().processes.len() > 0 {
-            println!("[{}] ({}) {}", job.borrow().job_id, job.borrow().processes[0].pid, job.borrow());
+    }
+    let status = run_builtin(command);
+    let _ = std::io::stdout().flush();
+    status
+}
+
+/// This function runs a builtin, a function or a function definition in the shell itself.
+/// Its redirections are undone afterwards.
+fn run_in_shell(command: &mut Command) -> i32 {
+    let mut saved = Vec::new();
+    let redirected = match command {
+        Command::SimpleCommand(simple_command) => {
+            let (prefix, suffix) = simple_command.prefix_suffix();
+            eval_redirects(prefix, suffix, &mut saved)
+        },
+        _ => Ok(()),
+    };
+    let status = match redirected {
+        Ok(_) => run_builtin(command),
+        Err(message) => {
+            errln!("{}", message);
+            1
         }
-        else if proc_count == 0 {
-            let id = {
-                let job = job.borrow();
-                job.job_id
-            };
-            shell::delete_job(id);
+    };
+    let _ = std::io::stdout().flush();
+    for (fd, copy) in saved.into_iter().rev() {
+        match copy {
+            Some(copy) => {
+                let _ = dup2(copy, fd);
+                let _ = close(copy);
+            },
+            None => {
+                let _ = close(fd);
+            }
         }
+    }
+    status
+}
 
-    //let job = temp_exec(processes)?;
+/// This function checks if a command is run without another program.
+fn runs_in_shell(command: &Command) -> bool {
+    match command {
+        Command::SimpleCommand(simple_command) => {
+            is_assignment(simple_command)
+                || (!simple_command.name.is_empty() && check_if_builtin(&simple_command.name))
+                || check_if_function(&simple_command.name)
+        },
+        _ => true,
+    }
+}
 
-    
-    //unblock interrupts
-    trap::interrupts_on();
+/// This function checks if a command only consists of assignments and redirections.
+fn is_assignment(simple_command: &SimpleCommand) -> bool {
+    simple_command.name.is_empty() && simple_command.suffix.is_none() && simple_command.prefix.is_some()
+}
 
-    Ok(get_exit_code())
+/// This function runs a builtin, a function or a function definition and returns its status.
+fn run_builtin(command: &mut Command) -> i32 {
+    let command = match command {
+        Command::FunctionDefinition(function_definition) => {
+            eval_function_definition(function_definition);
+            return 0;
+        },
+        Command::SimpleCommand(simple_command) => simple_command,
+        _ => return 1,
+    };
+    if !check_if_builtin(&command.name) {
+        return match eval_function(command) {
+            Ok(status) => status,
+            Err(message) => {
+                errln!("{}: {}", command.name, message);
+                1
+            }
+        };
+    }
+    match call_builtin(command) {
+        Ok(_) => match command.name.as_str() {
+            "eval" | "." | "source" | "fg" | "return" => get_exit_code(),
+            _ => 0,
+        },
+        Err(e) => {
+            errln!("{}: {}", command.name, e);
+            1
+        }
+    }
 }
 
-/// This command evaluates a Command and returns a None if the command is a function definition or a shell builtin.
-/// if the command is not one of the above two then it returns a tuple with a Process and the SimpleCommand that
-/// made the Process.
-fn eval_command(command: &mut Command) -> Result<Option<(Process,SimpleCommand)>,String> {
+/// This command evaluates a Command. It returns a Process for the command and the command with all of
+/// its words expanded.
+fn eval_command(command: &mut Command) -> Result<(Process,Command),String> {
 
     match command {
         Command::SimpleCommand(simple_command) => {
             return eval_simple_command(simple_command);
         },
         Command::FunctionDefinition(function_definition) => {
-            return eval_function_definition(function_definition);
+            let name = function_definition.name.clone();
+            let process = Process::new(Vec::new(), name.clone(), name);
+            return Ok((process, Command::FunctionDefinition(function_definition.clone())));
         },
         _ => {
             return Err("Not implemented".to_string());
@@ -321,22 +403,16 @@ fn eval_command(command: &mut Command) -> Result<Option<(Process,SimpleCommand)>
 }
 
 /// This function evaluates a function definition and adds it to the current context's function table.
-fn eval_function_definition(function_definition: &mut FunctionDefinition) -> Result<Option<(Process,SimpleCommand)>,String> {
+fn eval_function_definition(function_definition: &mut FunctionDefinition) {
     let name = &function_definition.name;
     let body = function_definition.function_body.clone();
     shell::add_function(&name, body);
-    Ok(None)
 }
 
 /// This function evaluates a simple command and returns a tuple with a Process and the SimpleCommand that
 /// made the Process.
-fn eval_simple_command(simple_command: &mut SimpleCommand) -> Result<Option<(Process, SimpleCommand)>,String> {
+fn eval_simple_command(simple_command: &mut SimpleCommand) -> Result<(Process, Command),String> {
    
-    if check_if_builtin(&simple_command.name) {
-        return eval_builtin(simple_command);
-    }
-
-    
     //todo make this one function to resolve problems
     /*log!("eval_simple_command: {:?}", simple_command);
     simple_command.remove_whitespace();
@@ -361,67 +437,89 @@ fn eval_simple_command(simple_command: &mut SimpleCommand) -> Result<Option<(Pro
 
     let process = Process::new(argv,simple_command.name.clone(),simple_command.cmd());
 
-    Ok(Some((process,simple_command.clone())))// this clone is bad and should be replaced
+    Ok((process,Command::SimpleCommand(simple_command.clone())))// this clone is bad and should be replaced
 }
 
 /// This function evaluates a SimpleCommand's Prefix and Suffix.
-fn eval_prefix_suffix(prefix_suffix: (Option<&Prefix>, Option<&Suffix>)) {
+fn eval_prefix_suffix(prefix_suffix: (Option<&Prefix>, Option<&Suffix>), saved: &mut Vec<(RawFd,Option<RawFd>)>) -> Result<(),String> {
     let (prefix, suffix) = prefix_suffix;
+    eval_redirects(prefix, suffix, saved)?;
     if prefix.is_some() {
-        eval_redirect(&prefix.unwrap().io_redirect);
         eval_assignment(&prefix.unwrap().assignment);
     }
+    Ok(())
+}
+
+/// This function evaluates the redirections of a SimpleCommand from left to right.
+fn eval_redirects(prefix: Option<&Prefix>, suffix: Option<&Suffix>, saved: &mut Vec<(RawFd,Option<RawFd>)>) -> Result<(),String> {
+    if prefix.is_some() {
+        eval_redirect(&prefix.unwrap().io_redirect, saved)?;
+    }
     if suffix.is_some() {
-        eval_redirect(&suffix.unwrap().io_redirect);
+        eval_redirect(&suffix.unwrap().io_redirect, saved)?;
     }
+    Ok(())
 }
 
 /// This function evaluates an assignment in a SimpleCommand's Prefix.
 fn eval_assignment(assignment: &Vec<String>) {
     for assign in assignment.iter() {
-        let assign = assign.split('=').collect::<Vec<&str>>();
-        env::set_var(&assign[0], &assign[1]);
+        if let Some((name, value)) = assign.split_once('=') {
+            env::set_var(name, value);
+        }
     }
 }
 
 /// This function evaluates an IoRedirect in a SimpleCommand's Prefix or Suffix.
-fn eval_redirect(redirect: &Vec<IoRedirect>) {
+/// What the redirected descriptors were before is put into 'saved'.
+fn eval_redirect(redirect: &Vec<IoRedirect>, saved: &mut Vec<(RawFd,Option<RawFd>)>) -> Result<(),String> {
     for redir in redirect.iter() {
         if redir.io_file.is_some() {
             let io_file = redir.io_file.as_ref().unwrap();
+            let mut options = OpenOptions::new();
+            let default_fd;
             match &io_file.redirect_type {
                 RedirectType::Input => {
-                    let file = OpenOptions::new()
-                        .read(true)
-                        .open(&io_file.filename)
-                        .unwrap();
-                    
-                    dup2(file.as_raw_fd(), 0).unwrap();
-                    mem::forget(file);
+                    options.read(true);
+                    default_fd = 0;
                 },
                 RedirectType::Output => {
-                    let file = OpenOptions::new()
-                        .write(true)
-                        .create(true)
-                        .open(&io_file.filename)
-                        .unwrap();
-                    dup2(file.as_raw_fd(), 1).unwrap();
-                    mem::forget(file);
+                    options.write(true).create(true).truncate(true);
+                    default_fd = 1;
                 },
                 RedirectType::Append => {
-                    let file = OpenOptions::new()
-                        .write(true)
-                        .append(true)
-                        .create(true)
-                        .open(&io_file.filename)
-                        .unwrap();
-                    dup2(file.as_raw_fd(), 1).unwrap();
-                    mem::forget(file);
+                    options.append(true).create(true);
+                    default_fd = 1;
                 },
-                _ => (),
+                _ => continue,
+            }
+            let fd = redir.io_number.unwrap_or(default_fd);
+            let error = |e: &dyn std::fmt::Display| format!("{}: {}", io_file.filename, e);
+
+            let copy = fcntl(fd, FcntlArg::F_DUPFD_CLOEXEC(100)).ok();
+            let file = match options.open(&io_file.filename) {
+                Ok(file) => file,
+                Err(e) => {
+                    if let Some(copy) = copy {
+                        let _ = close(copy);
+                    }
+                    return Err(error(&e));
+                }
+            };
+            saved.push((fd, copy));
+            let opened = file.into_raw_fd();
+            if opened == fd {
+                // the file landed on the right descriptor, but it has to survive an exec
+                fcntl(fd, FcntlArg::F_SETFD(FdFlag::empty())).map_err(|e| error(&e))?;
+            }
+            else {
+                let result = dup2(opened, fd);
+                let _ = close(opened);
+                result.map_err(|e| error(&e))?;
             }
         }
     }
+    Ok(())
 }
 
 /// This function checks if a command is a shell builtin.
@@ -446,37 +544,6 @@ fn check_if_builtin(cmd_name: &str) -> bool {
 }
 
 /// This function evaluates a shell builtin. We should handle the error properly here.
-fn eval_builtin(command: &mut SimpleCommand) -> Result<Option<(Process,SimpleCommand)>,String> {
-
-    /*command.remove_whitespace();
-    log!("eval_simple_command: {:?}", command);
-    command.eval_double_quotes();
-    log!("eval_double_quotes: {:?}", command);
-    command.alias_lookup();
-    log!("alias_lookup: {:?}", command);
-    command.expand_vars();
-    log!("expand_vars: {:?}", command);
-    command.remove_double_quotes();
-    log!("remove_double_quotes: {:?}", command);
-    command.remove_single_quotes();
-    log!("remove_single_quotes: {:?}", command);*/
-
-
-    command.alias_lookup();
-    command.expand();
-
-
-    let result = call_builtin(command);
-
-    if result.is_err() {
-        return Err(format!("{}", result.err().unwrap()));
-    }
-    else {
-        return Ok(None)
-    }
-    
-}
-
 fn call_builtin(command: &mut SimpleCommand) -> Result<Option<(Process,SimpleCommand)>,std::io::Error> {
 
     match command.name.as_str() {
@@ -552,10 +619,10 @@ fn check_if_function(cmd_name: &str) -> bool {
 }
 
 /// This function evaluates a shell function.
-fn eval_function(command: &mut SimpleCommand) -> Result<i32,&'static str> {
+fn eval_function(command: &mut SimpleCommand) -> Result<i32,String> {
     let function = shell::get_function(&command.name);
     if function.is_none() {
-        return Err("Function not found");
+        return Err("Function not found".to_string());
     }
     //eprintln!("{:?}", function.clone().unwrap());
     //eprintln!("{:?}", command);
@@ -575,53 +642,64 @@ fn eval_function(command: &mut SimpleCommand) -> Result<i32,&'static str> {
 
     let mut function = function.unwrap().borrow().clone();
 
-    eval_compound_command(&mut function.compound_command);
+    FUNCTION_DEPTH.fetch_add(1, Ordering::Relaxed);
+    let result = nested(|| eval_compound_command(&mut function.compound_command));
+    FUNCTION_DEPTH.fetch_sub(1, Ordering::Relaxed);
     shell::pop_context();
 
-    Ok(0)//todo: change this to return the right exit code
+    if RETURNING.swap(false, Ordering::Relaxed) {
+        return Ok(get_exit_code());
+    }
+    result
 }
 
 /// This function evaluates a CompoundCommand.
-fn eval_compound_command(command: &mut CompoundCommand) {
+fn eval_compound_command(command: &mut CompoundCommand) -> Result<i32,String> {
     match command {
         CompoundCommand::BraceGroup(bg) => {
-            eval_compound_list(&mut bg.0);
+            eval_compound_list(&mut bg.0)
         }
-        _ => unimplemented!(),
+        _ => Err("Not implemented".to_string()),
     }
 }
 
 /// This function evaluates a CompoundList.
-fn eval_compound_list(compound_list: &mut CompoundList) {
-    parse_tree(&mut compound_list.0.0);
+fn eval_compound_list(compound_list: &mut CompoundList) -> Result<i32,String> {
+    parse_tree(&mut compound_list.0.0)
 }
 
 /// This function is a wraper for fork().
 /// It also sets up the command's pid in the parent and sets the shell's forked flag in the child.
 fn temp_fork(command: &mut Process) -> Result<Pid,Errno> {
-    match unsafe {fork()}?{
-        ForkResult::Parent { child } => {
-            //need to add in logic for setting up jobs
-            command.set_pid(child);
-            return Ok(child);
-        },
-        ForkResult::Child => {
-            shell::set_forked(true);
+    let child = fork_shell()?;
+    if child != Pid::from_raw(0) {
+        //need to add in logic for setting up jobs
+        command.set_pid(child);
+    }
+    Ok(child)
+}
 
-            return Ok(Pid::from_raw(0));
-        }
+/// This function forks the shell. It returns 0 in the child.
+/// A signal that reaches the child before its handlers are reset stays pending until they are.
+pub fn fork_shell() -> Result<Pid,Errno> {
+    let mut mask = SigSet::empty();
+    trap::sig_block_all(&mut mask);
+    let result = unsafe {fork()};
+    if let Ok(ForkResult::Child) = result {
+        shell::set_forked(true);
+        jobs::fork_reset();
+        return Ok(Pid::from_raw(0));
+    }
+    trap::sig_restore(&mask);
+    match result? {
+        ForkResult::Parent { child } => Ok(child),
+        ForkResult::Child => Ok(Pid::from_raw(0)),
     }
 }
 
 /// This function is a wrapper for execv().
 fn temp_exec(process: &mut Process) -> Result<i32,String> {
 
-    //set env
-    //
-    //set assignments
-  
-    jobs::fork_reset();
-
     let argv0 = match shell::lookup_command(&process.argv0) {
         Some(cmd) => cmd,
         None => {
@@ -644,14 +722,9 @@ fn temp_exec(process: &mut Process) -> Result<i32,String> {
 }
 
 
+/// This function replaces the shell. If that fails the shell is as it was before.
 pub fn temp_execve(process: &mut Process,env: &[CString]) -> Result<i32,String> {
 
-    //set env
-    //
-    //set assignments
-  
-    jobs::fork_reset();
-
     let argv0 = match shell::lookup_command(&process.argv0) {
         Some(cmd) => cmd,
         None => {
@@ -661,16 +734,17 @@ pub fn temp_execve(process: &mut Process,env: &[CString]) -> Result<i32,String>
 
     let command = CString::new(argv0).unwrap();
 
+    // the handlers of the shell do not survive an exec, but what it ignores stays ignored
+    let ignored = trap::default_sigpipe();
 
     match nix::unistd::execve(&command, &process.argv, &env) {
         Ok(_) => {
             unreachable!();
         },
         Err(e) => {
+            trap::restore_sigpipe(&ignored);
             return Err(format!("Failed to execute: {}", e));
         }
     }
 
 }
-
-
diff --git a/src/jobs.rs b/src/jobs.rs
index 94e50cf..bd97e00 100644
--- a/src/jobs.rs
+++ b/src/jobs.rs
@@ -8,7 +8,8 @@ use std::rc::Rc;
 use std::cell::RefCell;
 use std::collections::{BTreeMap, HashMap};
 use crate::trap;
-use crate::eval::{get_exit_status, set_exit_status};
+use crate::eval::get_exit_status;
+use crate::outln;
 use crate::shell;
 
 /// A type alias for a job id
@@ -18,10 +19,6 @@ pub type JobId = usize;
 const DOWAIT_NONBLOCK: usize = 0;
 /// A constant for do_wait to indicate that the wait should be blocking
 const DOWAIT_BLOCK: usize = 1;
-/// A constant for do_wait to indicate that we should wait for a specific job
-const DOWAIT_WAITCMD: usize = 2;
-/// A constant for do_wait to indicate that we should wait for all jobs
-const DOWAIT_WAITCMD_ALL: usize = 4;
 
 /// A trait that allows us to overload the delete_job and get_job methods
 pub trait JobUtils<I> {
@@ -65,10 +62,6 @@ impl JobControl {
     /// It creates a new job and adds it to the job table.
     pub fn create_job(&mut self, processes: Vec<Process>, background: bool) -> Rc<RefCell<Job>> {
         
-        for process in &processes {
-            self.pid_to_job.insert(process.pid, self.next_job_id);
-        }
-
         let job = Job::new(processes, self.next_job_id, background);
         
         self.job_table.borrow_mut().insert(self.next_job_id, Rc::new(RefCell::new(job)));
@@ -159,17 +152,8 @@ impl JobUtils<Pid> for JobControl {
             None => return,
         };
         
-         {
-             let mut job = job.borrow_mut();
-             if matches!(job.processes[0].status, Some(WaitStatus::Stopped(_,_))) {
-                 job.state = JobState::Stopped;
-                 job.stop_status = job.processes[0].status.unwrap();
-             }
-         } 
-
         //println!("{:?}",job.borrow());
-        if matches!(job.borrow().stop_status,WaitStatus::Stopped(_,_)) {
-            job.borrow_mut().state = JobState::Stopped;
+        if job.borrow().state == JobState::Stopped {
             self.job_table.borrow_mut().insert(job_id, job);
             return;
         }
@@ -210,22 +194,8 @@ impl JobUtils<JobId> for JobControl {
             None => return,
         };
 
-        if job.borrow().processes.len() == 0 {
-            return;
-        }
-
-         {
-             let mut job = job.borrow_mut();
-             if matches!(job.processes[0].status, Some(WaitStatus::Stopped(_,_))) {
-                 job.state = JobState::Stopped;
-                 job.stop_status = job.processes[0].status.unwrap();
-             }
-         } 
-        
-
         //println!("{:?}",job.borrow());
-        if matches!(job.borrow().stop_status,WaitStatus::Stopped(_,_)) {
-            job.borrow_mut().state = JobState::Stopped;
+        if job.borrow().state == JobState::Stopped {
             self.job_table.borrow_mut().insert(job_id, job);
             return;
         }
@@ -247,14 +217,16 @@ impl JobUtils<JobId> for JobControl {
     }
 }
 
-/// This implementation allows us to print out the job table.
-impl Display for JobControl {
-    fn fmt(&self, f: &mut Formatter) -> Result<(), Error> {
+impl JobControl {
+    /// This method allows us to print out the job table. A job in the foreground is not part of it.
+    pub fn display(&self, marker: &str) -> String {
         let mut s = String::new();
         for (id, job) in self.job_table.borrow().iter() {
-            s.push_str(&format!("[{}] {}{}\n",id, shell::expand_var("PS4").unwrap(), job.borrow()));
+            if job.borrow().background || job.borrow().state == JobState::Stopped {
+                s.push_str(&format!("[{}] {}{}\n",id, marker, job.borrow()));
+            }
         }
-        write!(f, "{}", s)
+        s
     }
 }
 
@@ -382,6 +354,28 @@ impl Job {
             }
         }
     }
+
+    /// This method works out the state and the status of the job from its processes.
+    /// The status of a job is the one of its last process, unless the job was stopped.
+    pub fn update_state(&mut self) {
+        let stopped = self.processes.iter().find_map(|process| match process.status {
+            Some(status @ WaitStatus::Stopped(_, _)) => Some(status),
+            _ => None,
+        });
+        if self.processes.iter().any(|process| process.status.is_none()) {
+            self.state = JobState::Running;
+        }
+        else if let Some(status) = stopped {
+            self.state = JobState::Stopped;
+            self.stop_status = status;
+        }
+        else {
+            self.state = JobState::Finished;
+            if let Some(status) = self.processes.last().and_then(|process| process.status) {
+                self.stop_status = status;
+            }
+        }
+    }
 }
 
 /// This implementation allows us to print out the job.
@@ -405,33 +399,6 @@ impl Display for Job {
 
 //pub fn forkshell()
 
-/// This function waits for a job to finish.
-///
-/// This variant of the function is similar to to wait_for_job but also takes in a WaitStatus.
-/// This is called from a SIGCHLD handler as we need to to know the if the job only has one process or not.
-/// If the job has more than one process then we call the normal wait_for_job function.
-pub fn wait_for_job_sigchld(job: Option<Rc<RefCell<Job>>>, status: WaitStatus) -> WaitStatus {
-
-    if job.is_none() {
-        return status;
-    }
-    let job = job.unwrap();
-
-    if job.borrow().processes.len() == 1 {
-        job.borrow_mut().stop_status = status;
-        job.borrow_mut().state = JobState::Finished;
-        let id = {
-            job.borrow().job_id
-        };
-        shell::delete_job(id);
-        return status;
-    }
-    trap::interrupts_off();
-    let result = wait_for_job(Some(job));
-    trap::interrupts_on();
-    result
-}
-
 /// This function waits for a job to finish.
 ///
 /// It takes in an Option with a reference to a job and returns a WaitStatus.
@@ -454,7 +421,7 @@ pub fn wait_for_job(job: Option<Rc<RefCell<Job>>>) -> WaitStatus {
 
     status = job.borrow().stop_status;
 
-    if job.borrow().state == JobState::Finished || matches!(job.borrow().stop_status,WaitStatus::Exited(_, _)) {
+    if job.borrow().state == JobState::Finished {
         let id = {
             job.borrow().job_id
         };
@@ -463,154 +430,113 @@ pub fn wait_for_job(job: Option<Rc<RefCell<Job>>>) -> WaitStatus {
     status
 }
 
-/// This function waits for a process to terminate.
-fn wait_one(block: usize, job: &Option<Rc<RefCell<Job>>>) -> Result<Option<Pid>,Errno> {
-    //eprintln!("wait_one");
+/// This function turns the status of a process into an exit code.
+pub fn exit_code(status: WaitStatus) -> i32 {
+    match status {
+        WaitStatus::Exited(_, code) => code,
+        WaitStatus::Signaled(_, signal, _) | WaitStatus::Stopped(_, signal) => 128 + signal as i32,
+        _ => 1,
+    }
+}
 
-    let mut this_job: Option<Rc<RefCell<Job>>> = None;
+/// This function collects every child that changed its state since the last time, without waiting for one,
+/// and removes the jobs that have finished.
+pub fn reap_jobs() {
+    do_wait(DOWAIT_NONBLOCK, &None);
+    shell::clear_completed_jobs();
+}
 
-    // block interapt
-    trap::interrupts_off();
+/// This function waits for a process to change its state and updates the job that the process belongs to.
+/// It returns None if there is nothing to be collected.
+fn wait_one(block: usize, job: &Option<Rc<RefCell<Job>>>) -> Result<Option<Pid>,Errno> {
+    //eprintln!("wait_one");
 
     let result = wait_process(block)?;
 
+    let pid = match result.pid() {
+        Some(pid) => pid,
+        None => return Ok(None),
+    };
 
-    if result.pid().is_none() {
-        // unblock interupt
-        trap::interrupts_on();
-        if this_job.is_some() && *this_job.as_ref().unwrap().borrow() == *job.as_ref().unwrap().borrow() {
-
-            let output = format_status(result, true);
-
-            if output.is_some() {
-                println!("{}", output.unwrap());
-            }
+    let mut this_job: Option<Rc<RefCell<Job>>> = None;
 
+    for (_, jb) in shell::get_job_table().borrow().iter() {
+        if jb.borrow().state == JobState::Finished {
+            continue;
+        }
+        if jb.borrow().processes.iter().any(|process| process.pid == pid) {
+            this_job = Some(jb.clone());
+            break;
         }
-        return Ok(None);
     }
-   
-    let mut status = result;
-    let mut pid = Pid::from_raw(-1);
 
-    match result {
-        WaitStatus::Exited(id, _) => {
-            pid = id;
-        },
-        WaitStatus::Signaled(id, _, _) => {
-            pid = id;
-        },
-        WaitStatus::Stopped(id, _) => {
-            pid = id;
-        },
-        WaitStatus::StillAlive => {
-            return Ok(None);
-        },
-        _ => (),
+    let this_job = match this_job {
+        Some(this_job) => this_job,
+        None => return Ok(Some(pid)),
+    };
+
+    let message = if job.as_ref().map_or(false, |job| *job.borrow() == *this_job.borrow()) {
+        format_status(result, true)
     }
-   
-    let mut state;
-    for (_, jb) in shell::get_job_table().borrow_mut().iter_mut() {
-        let result = jb.try_borrow();
-        if result.is_err() || result.unwrap().state == JobState::Finished {
-            continue;
-        }
-        state = JobState::Finished;
-        let mut stopped = false;
-        for process in jb.borrow_mut().borrow_processes_mut() {
-            if process.pid == pid {
-                process.status = Some(status);
-                this_job = Some(jb.clone());
-            }
-            if process.status == None {
-                state = JobState::Running;
-            }
-            if state == JobState::Running {
-                continue;
-            }
-            if matches!(process.status, Some(WaitStatus::Stopped(_, _))) {
-                //println!("stopped");
-                state = JobState::Stopped;
-                stopped = true;
-            }
+    else if this_job.borrow().background {
+        let id = this_job.borrow().job_id;
+        match result {
+            WaitStatus::Signaled(_, _, _) => Some(format!("Job [{}] ({}) terminated by signal", id, pid)),
+            WaitStatus::Stopped(_, _) => Some(format!("Job [{}] ({}) stopped by signal", id, pid)),
+            _ => None,
         }
-        let stop_status = jb.borrow().processes[0].status.unwrap();
-        jb.borrow_mut().stop_status = stop_status;
-        if this_job.is_some() {
-            if state != JobState::Running {
-                this_job.as_ref().unwrap().borrow_mut().changed = true;
+    }
+    else {
+        None
+    };
 
-                if this_job.as_ref().unwrap().borrow().state != state {
-                    // log job state change
-                    this_job.as_ref().unwrap().borrow_mut().state = state;
-                }
-                if state == JobState::Stopped {
-                    shell::set_current_job(this_job.as_ref().unwrap().borrow().job_id);
+    {
+        let mut this_job = this_job.borrow_mut();
+        match result {
+            WaitStatus::Continued(_) => {
+                for process in this_job.processes.iter_mut() {
+                    if process.pid == pid {
+                        process.status = None;
+                    }
                 }
-            }
-            break;
+            },
+            status => this_job.set_process_status(pid, status),
         }
+        this_job.update_state();
+        this_job.changed = true;
     }
 
-    // unblock interupts
-    trap::interrupts_on();
-
-    if this_job.is_some() && *this_job.as_ref().unwrap().borrow() == *job.as_ref().unwrap().borrow() {
-
-        let output = format_status(result, true);
-
-        if output.is_some() {
-            println!("{}", output.unwrap());
-        }
+    if let Some(message) = message {
+        outln!("{}", message);
+    }
 
+    if this_job.borrow().state == JobState::Stopped {
+        shell::set_current_job(this_job.borrow().job_id);
     }
-    return Ok(Some(pid));
+
+    Ok(Some(pid))
 }
 
 /// This function takes in some flags listed at the tob of job.rs.
-fn do_wait(mut block: usize, job: &Option<Rc<RefCell<Job>>>) -> i32 {
+/// If it is given a job it waits until that job no longer runs. Otherwise it only collects what has happened.
+fn do_wait(block: usize, job: &Option<Rc<RefCell<Job>>>) {
     //eprintln!("do_wait");
-    let got_sigchld = trap::got_sigchld();
-
-    if job.is_some() && job.as_ref().unwrap().borrow().state != JobState::Running {
-        block = DOWAIT_NONBLOCK;
-    }
-
-    if block == DOWAIT_NONBLOCK && !got_sigchld {
-        //eprintln!("return 1");
-        return 1;
-    }
-
-    let mut return_pid = 1;
-    
     loop {
-        let pid = wait_one(block, &job);
-        
-        if pid.is_ok() && pid.as_ref().unwrap().is_none() {
+        if job.as_ref().map_or(false, |job| job.borrow().state != JobState::Running) {
             break;
         }
-
-        return_pid &= {
-            if pid.is_ok() && pid.as_ref().unwrap().is_some() {
-                0
-            } else {
-                1
+        match wait_one(block, job) {
+            Ok(Some(_)) => continue,
+            Ok(None) => break,
+            Err(_) => {
+                // there are no children left, so this job can't have any either
+                if let Some(job) = job {
+                    job.borrow_mut().state = JobState::Finished;
+                }
+                break;
             }
-        };
-
-        block &= !DOWAIT_WAITCMD_ALL;
-
-        if pid.is_ok() || (job.is_some() && job.as_ref().unwrap().borrow().state != JobState::Running) {
-            block = DOWAIT_NONBLOCK;
-        }
-       
-        if pid.is_err() {
-            break;
         }
-
     }
-
-    return_pid
 }
 
 /// This is where we do a wait system call.
@@ -620,7 +546,7 @@ fn do_wait(mut block: usize, job: &Option<Rc<RefCell<Job>>>) -> i32 {
 pub fn wait_process(block: usize) -> Result<WaitStatus, Errno> {
     //eprintln!("wait_process");
     let mut old_mask = signal::SigSet::empty();
-    let flags = if block == DOWAIT_BLOCK {WaitPidFlag::WUNTRACED} else {WaitPidFlag::WNOHANG | WaitPidFlag::WUNTRACED};
+    let flags = if block == DOWAIT_BLOCK {WaitPidFlag::WUNTRACED | WaitPidFlag::WCONTINUED} else {WaitPidFlag::WNOHANG | WaitPidFlag::WUNTRACED | WaitPidFlag::WCONTINUED};
 
 
     let mut result;
@@ -676,14 +602,14 @@ fn format_status(result: WaitStatus, sig_only: bool) -> Option<String> {
                 Some(job) => job,
                 None => return None,
             };
-            output.push_str(&format!("[{}] {}\t\t{} ", job.borrow().job_id,shell::expand_var("PS4").unwrap(), job.borrow()));
+            output.push_str(&format!("[{}] {}\t\t{} ", job.borrow().job_id,shell::expand_var("PS4").unwrap_or_default(), job.borrow()));
         },
         WaitStatus::Signaled(pid, signal, dump) => {
             let job = match shell::get_job(pid) {
                 Some(job) => job,
                 None => return None,
             };
-            output.push_str(&format!("[{}] {}\t\t{} ", job.borrow().job_id,shell::expand_var("PS4").unwrap(), job.borrow()));
+            output.push_str(&format!("[{}] {}\t\t{} ", job.borrow().job_id,shell::expand_var("PS4").unwrap_or_default(), job.borrow()));
             if dump {
                 output.push_str(&format!("({}) (core dumped)", signal));
             }
@@ -696,7 +622,7 @@ fn format_status(result: WaitStatus, sig_only: bool) -> Option<String> {
                 Some(job) => job,
                 None => return None,
             };
-            output.push_str(&format!("[{}] {}\t\t{} ", job.borrow().job_id,shell::expand_var("PS4").unwrap(), job.borrow()));
+            output.push_str(&format!("[{}] {}\t\t{} ", job.borrow().job_id,shell::expand_var("PS4").unwrap_or_default(), job.borrow()));
             output.push_str(&format!("({})", signal));
         },
         _ => return None,
diff --git a/src/log.rs b/src/log.rs
index 11e1a77..bfde136 100644
--- a/src/log.rs
+++ b/src/log.rs
@@ -1,3 +1,7 @@
+use std::fs::File;
+use std::io::{self, Write};
+use std::mem::ManuallyDrop;
+use std::os::unix::io::{FromRawFd, RawFd};
 use std::sync::atomic::{AtomicBool, Ordering};
 
 static mut PRINT_OUT: AtomicBool = AtomicBool::new(false);
@@ -26,3 +30,26 @@ macro_rules! log {
 	
     })
 }
+
+/// Writes text to a descriptor at once. Unlike print!, an output that cannot be written is only an error
+/// and does not end the shell.
+pub fn write_fd(fd: RawFd, text: &str) -> io::Result<()> {
+    let mut file = ManuallyDrop::new(unsafe { File::from_raw_fd(fd) });
+    file.write_all(text.as_bytes())
+}
+
+/// println! for the messages of the shell
+#[macro_export]
+macro_rules! outln {
+    ($($arg:tt)*) => ({
+        let _ = crate::log::write_fd(1, &(format!($($arg)*) + "\n"));
+    })
+}
+
+/// eprintln! for the messages of the shell
+#[macro_export]
+macro_rules! errln {
+    ($($arg:tt)*) => ({
+        let _ = crate::log::write_fd(2, &(format!($($arg)*) + "\n"));
+    })
+}
diff --git a/src/shell.rs b/src/shell.rs
index ee89cdb..fecca21 100644
--- a/src/shell.rs
+++ b/src/shell.rs
@@ -215,8 +215,8 @@ impl Shell {
 
     /// This function returns a formatted String with all of the jobs to be printed out.
     /// This is so that it can be used in a way to prevent deadlocks if needed.
-    pub fn display_jobs(&self) -> String {
-        format!("{}",self.job_control)
+    pub fn display_jobs(&self, marker: &str) -> String {
+        self.job_control.display(marker)
     }
 
     /// This function gets the last job that was created.
@@ -489,16 +489,21 @@ pub fn delete_job<T>(id: T)
 where
     Shell: ShellJobUtils<T>,
 {
-    trap::interrupts_off();
     let mut shell = SHELL.get().borrow_mut();
     shell.delete_job(id);
-    trap::interrupts_on();
 }
 
 /// This function returns a string that contains all the jobs in the shell.
 pub fn display_jobs() -> String {
+    let marker = expand_var("PS4").unwrap_or_default();
     let shell = SHELL.get().borrow();
-    shell.display_jobs()
+    shell.display_jobs(&marker)
+}
+
+/// This function removes the jobs that have finished from the shell.
+pub fn clear_completed_jobs() {
+    let mut shell = SHELL.get().borrow_mut();
+    shell.job_control.clear_completed_jobs();
 }
 
 /// This function gets the last job in the shell.
diff --git a/src/trap.rs b/src/trap.rs
index 0d22b4c..97bd556 100644
--- a/src/trap.rs
+++ b/src/trap.rs
@@ -1,19 +1,14 @@
 use std::sync::atomic::{AtomicBool, Ordering};
-use std::io::{self,Write};
 use nix::sys::signal;
 use nix::sys::signal::Signal;
 use std::os::raw::c_int;
-use nix::sys::wait::{WaitStatus,WaitPidFlag,waitpid};
-use nix::unistd::Pid;
 use std::collections::HashMap;
 use lazy_static::lazy_static;
 use fragile::Fragile;
 use std::cell::RefCell;
 use std::cell::{Ref,RefMut};
 
-use crate::jobs::{self,JobState};
 use crate::shell;
-use crate::shell::ShellJobUtils;
 
 /// This constant represents that a signal should use its default behavior
 const S_DFL: usize = 1;
@@ -177,6 +172,8 @@ pub fn get_pending_signal() -> Option<Signal> {
 ///
 /// This function is very similar to how the Dash shell does signals. The only difference being that we handle the SIGCHLD signal.
 /// This function returns early if we are in the child.
+/// A handler can run between any two instructions of the shell, so it must not touch the shell's data
+/// and must not collect children. The children are collected by jobs::reap_jobs.
 extern "C" fn on_sig(sig_num: c_int) {
     if is_blocked() {
         return;
@@ -184,109 +181,20 @@ extern "C" fn on_sig(sig_num: c_int) {
     if shell::get_forked() {
         return;
     }
-    unsafe {
-        if sig_num == signal::SIGCHLD as c_int {
-            GOT_SIGCHLD.store(true, Ordering::Relaxed);
-
-            sig_chld();
-            
-            
-
-            //sig_chld();//this is different from how dash does it but it should allow for for traps to be set
-            if !is_trap_set(signal::SIGCHLD) {
-                return;
-            }
-        }
+    let errno = nix::errno::errno();
+    if sig_num == signal::SIGCHLD as c_int {
+        set_got_sigchld(true);
     }
-    //set which signal is got
-    //set pending signal
-    set_got_sig(sig_num);
-    set_pending_signal(sig_num);
-
-
-    if sig_num == signal::SIGINT as c_int && !is_trap_set(signal::SIGINT) {
-        nix::unistd::write(0,&[0xA as u8]).unwrap();
-        //io::stdin().read_line(&mut String::new()).unwrap();
+    else if sig_num == signal::SIGINT as c_int {
+        // there may be nothing that can be written to
+        let _ = nix::unistd::write(0,&[0xA as u8]);
         unsafe {
-            if !SUPRESS_SIGINT.load(Ordering::Relaxed) {
-                on_sigint();
-            }
             SIGINT_PENDING.store(true, Ordering::Relaxed);
         }
-        return;
-    }
-}
-
-/// This is the signal handler for SIGCHLD.
-///
-/// We have to do some interesting logic here since if we accidentally wait on a non-background process then we will have to return early.
-/// If the process is in the background then we can wait on it.
-fn sig_chld() {
-    let pid = Pid::from_raw(-1);
-
-    let flag: WaitPidFlag = WaitPidFlag::WNOHANG | WaitPidFlag::WUNTRACED;
-    let result = waitpid(pid, Some(flag));
-    if result.is_err() {
-        return;
-    }
-    let status = result.unwrap();
-    let pid;
-    let status = match &status {
-        WaitStatus::Exited(id, _) => {
-            pid = id;
-            status
-        },
-        WaitStatus::Signaled(id, _, _) => {
-            pid = id;
-            status
-        },
-        WaitStatus::Stopped(id, _) => {
-            pid = id;
-            status
-        },
-        WaitStatus::StillAlive => {
-            return;
-        },
-        _ => {
-            return;
-        }, 
-    };
-
-    let job = shell::get_job(*pid);
-    if job.is_none() {
-        return;
-    }
-    job.as_ref().unwrap().borrow_mut().set_process_status(*pid, status);
-   
-    if job.as_ref().unwrap().borrow().background {
-        match status {
-            WaitStatus::Signaled(_, _, _) => {
-                let msg = format!("Job [{}] ({}) terminated by signal",job.as_ref().unwrap().borrow().job_id, pid);
-                std::io::stdout().write_all(&msg.as_bytes()).unwrap();
-                std::io::stdout().flush().unwrap();
-            },
-            WaitStatus::Stopped(_, _) => {
-                let msg = format!("Job [{}] ({}) stopped by signal",job.as_ref().unwrap().borrow().job_id, pid);
-                std::io::stdout().write_all(&msg.as_bytes()).unwrap();
-                std::io::stdout().flush().unwrap();
-            },
-            _ => {},
-        }
-        
-        jobs::wait_for_job_sigchld(job, status);
     }
-}
-
-/// This functions is called if the signal was a SIGINT.
-pub fn on_sigint() {
     unsafe {
-        SIGINT_PENDING.store(false, Ordering::Relaxed);
+        *libc::__errno_location() = errno;
     }
-    sigclearmask();
-    // if !rootshell && iflag
-    // signal sigint sig_dfl
-    // raise sigint
-    //exitstatus = 128 + sigint
 }
 
 /// This function clears the signal mask
@@ -416,6 +324,28 @@ pub fn sig_clear_mask() {
     signal::sigprocmask(signal::SigmaskHow::SIG_SETMASK, Some(&sigset), None).unwrap();
 }
 
+/// This function puts back a mask that sig_block_all returned
+pub fn sig_restore(mask: &signal::SigSet) {
+    signal::sigprocmask(signal::SigmaskHow::SIG_SETMASK, Some(mask), None).unwrap();
+}
+
+/// This function gives SIGPIPE its default behavior, which the Rust runtime has taken away, and returns what it was
+pub fn default_sigpipe() -> signal::SigAction {
+    let sig_action = signal::SigAction::new(
+        signal::SigHandler::SigDfl,
+        signal::SaFlags::empty(),
+        signal::SigSet::empty(),
+    );
+    unsafe { signal::sigaction(Signal::SIGPIPE, &sig_action).unwrap() }
+}
+
+/// This function undoes default_sigpipe
+pub fn restore_sigpipe(sig_action: &signal::SigAction) {
+    unsafe {
+        signal::sigaction(Signal::SIGPIPE, sig_action).unwrap();
+    }
+}
+
 /// This function should be the same as sigsuspend but there are problems so far
 /// It is hard to test since I am not aware of the logic needed to test it
 pub fn sig_suspend(mask: &signal::SigSet) {
@@ -439,9 +369,6 @@ pub fn sig_suspend(mask: &signal::SigSet) {
 /// # Todo
 /// make this more inclusive
 pub fn remove_handlers() {
-    let sigset = signal::SigSet::empty();
-    signal::sigprocmask(signal::SigmaskHow::SIG_SETMASK, Some(&sigset), None).unwrap();
-
     let sig_handler = signal::SigHandler::SigDfl;
 
     let sig_action = signal::SigAction::new(
@@ -458,6 +385,10 @@ pub fn remove_handlers() {
         signal::sigaction(Signal::SIGTTIN, &sig_action).unwrap();
         signal::sigaction(Signal::SIGTTOU, &sig_action).unwrap();
         signal::sigaction(Signal::SIGCHLD, &sig_action).unwrap();
+        // the Rust runtime ignores this one
+        signal::sigaction(Signal::SIGPIPE, &sig_action).unwrap();
     }
-}
 
+    // only now, so that a signal that came in meanwhile has its default effect
+    sig_clear_mask();
+}
-- 
2.43.0


From e4f77ffef04ec5e8f6fcd31281083a4d36960202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:08 +0000
Subject: [PATCH 03/15] fix: variables, aliases and builtin operands

---
 src/builtins.rs | 605 ++++++++++++++++++++----------------------------
 src/context.rs  | 322 +++++++++++++-------------
 src/eval.rs     |   7 +-
 src/shell.rs    | 118 +++++-----
 4 files changed, 470 insertions(+), 582 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 59d9f72..4809d2a 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -1,19 +1,22 @@
 use std::env;
 use std::io;
+use std::os::unix::ffi::OsStringExt;
 use std::fs::File;
 use std::io::prelude::*;
 use std::process::exit;
-use std::io::Write;
 use crate::ast::SimpleCommand;
 use crate::shell;
 use nix::unistd::Pid;
 use nix::sys::signal::kill;
 use nix::sys::signal::Signal;
+use nix::sys::wait::WaitStatus;
 use std::ffi::CString;
 use crate::jobs;
 use crate::trap;
 use crate::eval;
+use crate::errln;
 use crate::log;
+use crate::outln;
 use crate::context::ContextUtils;
 use crate::context::Context;
 use crate::jobs::Process;
@@ -31,50 +34,44 @@ enum IdType {
     Jid,
 }
 
-/// This function trims quotes off of its input.
-fn trim(word: &str) -> String {
-    if (word.starts_with("\"") && word.ends_with("\"")) || (word.starts_with("'") && word.ends_with("'")){
-        let mut chars = word.chars();
-        chars.next();
-        chars.next_back();
-        chars.collect::<String>()
-    }
-    else {
-        word.to_string()
-    }
+/// This function makes an error out of a message.
+fn error<S: ToString>(message: S) -> std::io::Error {
+    std::io::Error::new(std::io::ErrorKind::Other, message.to_string())
+}
+
+/// This function returns the operands of a command.
+fn operands(command: &SimpleCommand) -> &[String] {
+    command.suffix.as_ref().map_or(&[], |suffix| &suffix.word)
+}
+
+/// This function prints the output of a builtin.
+fn print_out(text: &str) -> Result<(), std::io::Error> {
+    log::write_fd(1, text)
 }
 
 /// This function is the 'cd' command of the shell.
 /// We use the env::set_current_dir function to change the current directory.
 /// this needs to change several variables when changing but for now we won't care
 pub fn change_directory(command: &SimpleCommand) -> Result<(), std::io::Error> {
-    
-    trap::interrupts_off();
-    let path;
-    if command.suffix.is_none() {
-        path = env::var("HOME").unwrap();
-    } else {
-        path = command.suffix.as_ref().unwrap().word[0].to_string();
-    }
-    env::set_current_dir(path)?;
-    trap::interrupts_on();
-    Ok(())
+    let path = match operands(command).first() {
+        Some(path) => path.clone(),
+        None => shell::expand_var("HOME").ok_or_else(|| error("HOME is not set"))?,
+    };
+    env::set_current_dir(path)
 }
 
 /// This is the 'exit' command of the shell.
-/// Despite having a return value, this function will cause the shell to exit.
-/// By default it will exit with a status code of 0, but if the user specifies a status code
+/// It only returns if its operand is not a number.
+/// By default it will exit with the status of the last command, but if the user specifies a status code
 /// it will exit with that status code.
 pub fn quit(command: &SimpleCommand) -> Result<(), std::io::Error> {
-    shell::save_history();
-    if command.suffix.is_none() || command.suffix.as_ref().unwrap().word.is_empty() {
-        let exit_code = eval::get_exit_code();
-        exit(exit_code);
+    let code = match operands(command).first() {
+        Some(code) => code.parse::<i32>().map_err(|_| error("numeric argument required"))?,
+        None => eval::get_exit_code(),
+    };
+    if shell::is_interactive() && !shell::get_forked() {
+        shell::save_history();
     }
-    //let chars = command.suffix.as_ref().unwrap().word[0].chars();
-    //chars.next();
-    let code = command.suffix.as_ref().unwrap().word[0].parse::<i32>().unwrap();
-
     exit(code);
 }
 
@@ -83,60 +80,50 @@ pub fn quit(command: &SimpleCommand) -> Result<(), std::io::Error> {
 /// By default, it returns the last command's exit status.
 /// It takes a SimpleCommand with a suffix that is a string of the form 'number'.
 pub fn return_cmd(command: &SimpleCommand) -> Result<(), std::io::Error> {
-    if command.suffix.is_none() || command.suffix.as_ref().unwrap().word.is_empty() {
-        return Ok(());
+    if let Some(code) = operands(command).first() {
+        let code = code.parse::<i32>().map_err(|_| error("numeric argument required"))?;
+        eval::set_exit_status(code);
     }
-    //let chars = command.suffix.as_ref().unwrap().word[0].chars();
-    //chars.next();
-    let code = command.suffix.as_ref().unwrap().word[0].parse::<i32>().unwrap();
-
-    eval::set_exit_status(code);
+    eval::return_from_function();
     Ok(())
 }
 
 /// This is the 'jobs' command of the shell.
 /// It prints out all of the jobs that are currently running.
 pub fn jobs() -> Result<(), std::io::Error> {
-    print!("{}", shell::display_jobs());
-    io::stdout().flush().unwrap();
-    Ok(())
+    jobs::reap_jobs();
+    print_out(&shell::display_jobs())
 }
 
 /// This is the 'fg' and 'bg' commands of the shell.
 /// They are used to bring a job to the foreground or background respectively.
 /// They take a SimpleCommand with a suffix that is either a valid Pid or a job id if it starts with a '%'.
 pub fn fgbg(command: &SimpleCommand) -> Result<(), std::io::Error> {
-    trap::interrupts_off();
-    let id;
-    let id_type;
-    if command.suffix.is_none() {
-        return Err(std::io::Error::new(std::io::ErrorKind::Other, "fgbg needs an argument"));
-    }
-    if command.suffix.as_ref().unwrap().word[0].chars().nth(0).unwrap() == '%' {
-        let mut chars = command.suffix.as_ref().unwrap().word[0].chars();
-        chars.next();
-        id = chars.as_str().parse().unwrap();
-        id_type = IdType::Jid;
-    } else {
-        id = command.suffix.as_ref().unwrap().word[0].parse::<u32>().unwrap();
-        id_type = IdType::Pid;
-    }
+    let operand = operands(command).first().ok_or_else(|| error("fgbg needs an argument"))?;
+    let invalid = || error(format!("{}: not a job", operand));
 
-    if command.name == "fg" {
-        fg(id.try_into().unwrap(), id_type)?;
+    let (id, id_type) = match operand.strip_prefix('%') {
+        Some(id) => (id.parse::<usize>().map_err(|_| invalid())?, IdType::Jid),
+        None => (operand.parse::<i32>().map_err(|_| invalid())?.try_into().map_err(|_| invalid())?, IdType::Pid),
+    };
+
+    trap::interrupts_off();
+    jobs::reap_jobs();
+    let result = if command.name == "fg" {
+        fg(id, id_type)
     } else {
-        bg(id.try_into().unwrap(), id_type)?;
-    }
+        bg(id, id_type)
+    };
     trap::interrupts_on();
 
-    Ok(())
+    result
 }
 
 /// This is the 'fg' command of the shell.
 /// It is used to bring a stopped job to the foreground.
 /// It takes a SimpleCommand with a suffix that is either a valid Pid or a job id if it starts with a '%'.
 fn fg(id: usize, id_type: IdType) -> Result<(), std::io::Error> {
-    let mut job: Option<std::rc::Rc<std::cell::RefCell<jobs::Job>>> = None;
+    let job: Option<std::rc::Rc<std::cell::RefCell<jobs::Job>>>;
     match id_type {
         IdType::Pid => {
             let pid = Pid::from_raw(id as i32);
@@ -155,23 +142,36 @@ fn fg(id: usize, id_type: IdType) -> Result<(), std::io::Error> {
     }
     
     
-    job.as_ref().unwrap().borrow_mut().state = jobs::JobState::Running;
-    job.as_ref().unwrap().borrow_mut().background = false;
+    continue_job(&job, false);
 
-    for process in job.as_ref().unwrap().borrow().processes.iter() {
-        kill(process.pid, Signal::SIGCONT).unwrap();
-    }
-    println!("[{}] {}", job.as_ref().unwrap().borrow().job_id, job.as_ref().unwrap().borrow());
+    outln!("[{}] {}", job.as_ref().unwrap().borrow().job_id, job.as_ref().unwrap().borrow());
 
-    jobs::wait_for_job(job);
+    eval::set_exit_status(jobs::exit_code(jobs::wait_for_job(job)));
     Ok(())
 }
 
+/// This function continues the processes of a job that have not ended yet.
+fn continue_job(job: &Option<Rc<RefCell<jobs::Job>>>, background: bool) {
+    let mut job = job.as_ref().unwrap().borrow_mut();
+    job.state = jobs::JobState::Running;
+    job.background = background;
+
+    for process in job.processes.iter_mut() {
+        if matches!(process.status, Some(WaitStatus::Stopped(_, _))) {
+            process.status = None;
+        }
+        if process.status.is_none() {
+            // the process may have ended in the meantime
+            let _ = kill(process.pid, Signal::SIGCONT);
+        }
+    }
+}
+
 /// This is the 'bg' command of the shell.
 /// It is used to bring a stopped job to the background.
 /// It takes a SimpleCommand with a suffix that is either a valid Pid or a job id if it starts with a '%'.
 fn bg(id: usize, id_type: IdType) -> Result<(), std::io::Error> {
-    let mut job: Option<std::rc::Rc<std::cell::RefCell<jobs::Job>>> = None;
+    let job: Option<std::rc::Rc<std::cell::RefCell<jobs::Job>>>;
     match id_type {
         IdType::Pid => {
             let pid = Pid::from_raw(id as i32);
@@ -188,14 +188,9 @@ fn bg(id: usize, id_type: IdType) -> Result<(), std::io::Error> {
             }
         }
     }
-    job.as_ref().unwrap().borrow_mut().state = jobs::JobState::Running;
-    job.as_ref().unwrap().borrow_mut().background = true;
-    
-    for process in job.as_ref().unwrap().borrow().processes.iter() {
-        kill(process.pid, Signal::SIGCONT).unwrap();
-    }
+    continue_job(&job, true);
 
-    println!("[{}] {}", job.as_ref().unwrap().borrow().job_id, job.as_ref().unwrap().borrow());
+    outln!("[{}] {}", job.as_ref().unwrap().borrow().job_id, job.as_ref().unwrap().borrow());
 
     Ok(())
 }
@@ -206,16 +201,12 @@ fn bg(id: usize, id_type: IdType) -> Result<(), std::io::Error> {
 /// If the suffix is empty, it will print out all of the current aliases.
 /// If the suffix is '-p', it will print out all of the current aliases.
 pub fn alias(command: &SimpleCommand) -> Result<(), std::io::Error> {
-    if command.suffix.is_none() {
-        shell::display_aliases();
-        return Ok(());
-    }
-    if command.suffix.as_ref().unwrap().word[0].contains("-p") {
-        shell::display_aliases();
-        return Ok(());
+    let words = operands(command);
+    if words.is_empty() || words[0] == "-p" {
+        return print_out(&shell::display_aliases());
     }
     
-    for word in command.suffix.as_ref().unwrap().word.iter() {
+    for word in words.iter() {
         if !word.contains('=') {
             continue;//TODO: make this read argument
         }
@@ -230,17 +221,18 @@ pub fn alias(command: &SimpleCommand) -> Result<(), std::io::Error> {
 /// It takes a SimpleCommand with a suffix that is a string of the form 'alias'.
 /// If the suffix is '-a', it will remove all of the current aliases.
 pub fn unalias(command: &SimpleCommand) -> Result<(), std::io::Error> {
-    if command.suffix.is_none() {
+    let words = operands(command);
+    if words.is_empty() {
         return Err(std::io::Error::new(std::io::ErrorKind::Other, "unalias needs an argument"));
     }
-    if command.suffix.as_ref().unwrap().word.len() > 1 {
+    if words.len() > 1 {
         return Err(std::io::Error::new(std::io::ErrorKind::Other, "unalias only takes one argument"));
     }
-    if command.suffix.as_ref().unwrap().word[0].contains("-a") {
+    if words[0] == "-a" {
         shell::clear_aliases();
         return Ok(());
     }
-    shell::remove_alias(command.suffix.as_ref().unwrap().word[0].as_str());
+    shell::remove_alias(words[0].as_str());
     Ok(())
 }
 
@@ -265,16 +257,19 @@ fn create_context_from_file(file: &str) -> Result<Rc<RefCell<Context>>, std::io:
         }
     };
 
-    shell::push_context_new();
+    let mut context = Context::default();
+    context.isolated = true;
+    shell::push_context(context);
 
-    match eval::eval(&mut ast) {
-        Ok(_) => {},
+    let result = eval::eval(&mut ast);
+    let context = shell::pop_context().unwrap();
+    context.borrow_mut().isolated = false;
+    match result {
+        Ok(_) => Ok(context),
         Err(e) => {
-            return Err(std::io::Error::new(std::io::ErrorKind::Other, format!("Error evaluating file: {}", e)));
+            Err(std::io::Error::new(std::io::ErrorKind::Other, format!("Error evaluating file: {}", e)))
         }
     }
-    let context = shell::pop_context().unwrap();
-    Ok(context)
 }
 
 /// This is the 'export' command of the shell.
@@ -288,11 +283,11 @@ fn create_context_from_file(file: &str) -> Result<Rc<RefCell<Context>>, std::io:
 /// .        If the right side is a file, it will evaluate the as a new context and export it.
 /// .        If the right side is 'self', it will export the current context to the environment using the namespace defined by the left side.
 pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
-    if (command.suffix.is_none() || command.suffix.as_ref().unwrap().word.len() == 0) || command.suffix.as_ref().unwrap().word[0].contains("-p") {
-        env::vars().for_each(|(key, value)| {
-            println!("{}={}", key, value);
+    if operands(command).is_empty() || operands(command)[0] == "-p" {
+        let vars = env::vars_os().map(|(key, value)| {
+            format!("{}={}\n", key.to_string_lossy(), value.to_string_lossy())
         });
-        return Ok(());
+        return print_out(&vars.collect::<String>());
     }
 
     let suffix = command.suffix.as_ref().unwrap();
@@ -302,10 +297,8 @@ pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
             return Err(std::io::Error::new(std::io::ErrorKind::Other, "export context needs an argument"));
         }
         if suffix.word[1].as_str().contains('=') {
-            let mut split = suffix.word[1].split('=');
-            let namespace = split.next().unwrap();
-            let file = split.next().unwrap();
-            
+            let (namespace, file) = suffix.word[1].split_once('=').unwrap();
+
             if file == "self" {
                 let context = shell::get_current_context();
 
@@ -321,66 +314,69 @@ pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
             if suffix.word[1].as_str() == "self" {
                 let context = shell::get_current_context();
                 let namespace = {
-                    context.borrow().get_var("0").unwrap().borrow().value.clone()
+                    let var = context.borrow().get_var("0").ok_or_else(|| error("$0 is not set"))?;
+                    let name = var.borrow().value.clone();
+                    name
                 };
                 shell::add_context(&namespace, context);
                 return Ok(());
             }
             else {
-                let result = create_context_from_file(suffix.word[0].as_str())?;
-                shell::add_context(suffix.word[0].as_str(), result);
+                let result = create_context_from_file(suffix.word[1].as_str())?;
+                shell::add_context(suffix.word[1].as_str(), result);
             }
         }
         return Ok(());
     }
     
-    for word in command.suffix.as_ref().unwrap().word.iter() {
-        if !word.contains('=') {
-            let var = shell::expand_var(word);
-            if var.is_none() {
-                let function = shell::get_function(word);
+    let mut result = Ok(());
+    for word in suffix.word.iter() {
+        let (name, value) = match word.split_once('=') {
+            Some((name, value)) => (name, Some(value)),
+            None => (word.as_str(), None),
+        };
+        match shell::export_var(name, value) {
+            Ok(true) => {},
+            Ok(false) => {
+                let function = shell::get_function(name);
                 if function.is_some() {
-                    shell::get_env_context().borrow_mut().add_function(word, function.unwrap());
+                    shell::get_env_context().borrow_mut().add_function(name, function.unwrap());
                 }
-            }
-            else {
-                let temp = format!("{}={}",word,var.unwrap());
-                shell::get_env_context().borrow_mut().add_var(temp.as_str());
-            }
-            continue;//TODO: make this read argument
+            },
+            Err(e) => result = Err(error(e)),
         }
-        let mut split = word.split('=');
-        let key = split.next().unwrap();
-        let value = split.next().unwrap();
-        shell::add_var(word,0);
-        env::set_var(key, &trim(value));
     }
 
-    Ok(())
+    result
 }
 
 /// This evaluates an assignment which is a SimpleCommand with a prefix that is a string of the form 'variable=value'.
 pub fn assignment(command: &SimpleCommand) -> Result<(), std::io::Error> {
 
-
-
-    shell::add_var_context(command.prefix.as_ref().unwrap().assignment[0].as_str());
-    Ok(())
+    let mut result = Ok(());
+    for assignment in command.prefix.iter().flat_map(|prefix| prefix.assignment.iter()) {
+        if let Err(e) = shell::add_var_context(assignment.as_str()) {
+            result = Err(error(e));
+        }
+    }
+    result
 }
 
 
 /// This is the 'eval' command of the shell.
-/// It evaluates a string as a command.
+/// It evaluates its words as a command.
 /// It takes a SimpleCommand with a suffix that is a string of the form 'string'.
 pub fn eval_cmd(command: &SimpleCommand) -> Result<(), std::io::Error> {
-    if command.suffix.is_none() {
+    if operands(command).is_empty() {
         return Err(std::io::Error::new(std::io::ErrorKind::Other, "eval needs an argument"));
     }
 
+    eval_string(operands(command).join(" ") + "\n")
+}
 
-    let string = command.suffix.as_ref().unwrap().word[0].as_str().to_string() + "\n";
-    
-    let mut lexer = Lexer::new(string.as_str());
+/// This function evaluates a string in the current context.
+fn eval_string(string: String) -> Result<(), std::io::Error> {
+    let lexer = Lexer::new(string.as_str());
     let mut ast = match grammar::CompleteCommandParser::new().parse(string.as_str(),lexer) {
         Ok(ast) => ast,
         Err(e) => {
@@ -390,7 +386,7 @@ pub fn eval_cmd(command: &SimpleCommand) -> Result<(), std::io::Error> {
 
     log!("AST: {:?}", ast);
     match eval::eval(&mut ast) {
-        Ok(_) => {},
+        Ok(status) => eval::set_exit_status(status),
         Err(e) => {
             return Err(std::io::Error::new(std::io::ErrorKind::Other, format!("Error evaluating string: {}", e)));
         }
@@ -403,9 +399,8 @@ pub fn eval_cmd(command: &SimpleCommand) -> Result<(), std::io::Error> {
 /// This is the 'pwd' command of the shell.
 /// It prints out the current working directory.
 pub fn pwd() -> Result<(), std::io::Error> {
-    let path = env::current_dir().unwrap();
-    println!("{}", path.display());
-    Ok(())
+    let path = env::current_dir()?;
+    print_out(&format!("{}\n", path.display()))
 }
 
 enum Flags {
@@ -415,224 +410,149 @@ enum Flags {
 }
 
 pub fn unset(command: &SimpleCommand) -> Result<(), std::io::Error> {
-    if command.suffix.is_none() || command.suffix.as_ref().unwrap().word.len() == 0 {
-	return Err(std::io::Error::new(std::io::ErrorKind::Other, "unset needs an argument"));
-    }
-
-    let mut flags = Flags::Variable;
-    let mut pos = 0;
-    if command.suffix.as_ref().unwrap().word[0].as_str().contains('-') {
-	if command.suffix.as_ref().unwrap().word[0].as_str().contains('f') {
-	    flags = Flags::Function;
-	    pos = 1;
-	}
-	else if command.suffix.as_ref().unwrap().word[0].as_str().contains('c') {
-	    flags = Flags::Context;
-	    pos = 1;
-	}
-	else if command.suffix.as_ref().unwrap().word[0].as_str().contains('v') {
-	    flags = Flags::Variable;
-	    pos = 1;
-	}
-	else {
-	    return Err(std::io::Error::new(std::io::ErrorKind::Other, "unset: invalid option"));
-	}
-    }
-
-    match flags {
-        Flags::Variable => {
-            shell::remove_var(command.suffix.as_ref().unwrap().word[pos].as_str());
-        },
-        Flags::Function => {
-            shell::remove_function(command.suffix.as_ref().unwrap().word[pos].as_str());
-        },
-        Flags::Context => {
-            shell::remove_context(command.suffix.as_ref().unwrap().word[pos].as_str());
+    let words = operands(command);
+    let (flags, names) = match words.first().map(|word| word.as_str()) {
+        Some("-f") => (Flags::Function, &words[1..]),
+        Some("-c") => (Flags::Context, &words[1..]),
+        Some("-v") => (Flags::Variable, &words[1..]),
+        Some(word) if word.starts_with('-') => {
+            return Err(std::io::Error::new(std::io::ErrorKind::Other, "unset: invalid option"));
         },
+        _ => (Flags::Variable, words),
+    };
+    if names.is_empty() {
+        return Err(std::io::Error::new(std::io::ErrorKind::Other, "unset needs an argument"));
     }
 
+    let mut result = Ok(());
+    for name in names.iter() {
+        match flags {
+            Flags::Variable => {
+                if let Err(e) = shell::remove_var(name) {
+                    result = Err(error(e));
+                }
+            },
+            Flags::Function => {
+                shell::remove_function(name);
+            },
+            Flags::Context => {
+                shell::remove_context(name);
+            },
+        }
+    }
 
-    Ok(())
-
+    result
 }
 
 pub fn readonly(command: &SimpleCommand) -> Result<(), std::io::Error> {
-    if command.suffix.is_none() || command.suffix.as_ref().unwrap().word.len() == 0 {
-    return Err(std::io::Error::new(std::io::ErrorKind::Other, "readonly needs an argument"));
+    let words = operands(command);
+    if words.is_empty() {
+        return Err(std::io::Error::new(std::io::ErrorKind::Other, "readonly needs an argument"));
     }
 
     let mut flags = Flags::Variable;
     let mut pos = 0;
     let mut print = false;
-    if command.suffix.as_ref().unwrap().word[0].as_str().contains('-') {
-        if command.suffix.as_ref().unwrap().word[0].as_str().contains('f') {
-            flags = Flags::Function;
-            pos = 1;
-        }
-        else if command.suffix.as_ref().unwrap().word[0].as_str().contains('c') {
-            flags = Flags::Context;
-            pos = 1;
-        }
-        else if command.suffix.as_ref().unwrap().word[0].as_str().contains('v') {
-            flags = Flags::Variable;
-            pos = 1;
-        }
-        else if command.suffix.as_ref().unwrap().word[0].as_str().contains('p') {
-            print = true;
-            pos = 1;
-        }
-        else {
-            return Err(std::io::Error::new(std::io::ErrorKind::Other, "readonly: invalid option"));
-        }
-    }
-    if command.suffix.as_ref().unwrap().word[pos].as_str().contains('-') {
-        if command.suffix.as_ref().unwrap().word[pos].as_str().contains('p') {
-            print = true;
-            pos += 1;
-        }
-        else {
-            return Err(std::io::Error::new(std::io::ErrorKind::Other, "readonly: invalid option"));
+    while pos < words.len() && words[pos].starts_with('-') {
+        for option in words[pos].chars().skip(1) {
+            match option {
+                'f' => flags = Flags::Function,
+                'c' => flags = Flags::Context,
+                'v' => flags = Flags::Variable,
+                'p' => print = true,
+                _ => return Err(std::io::Error::new(std::io::ErrorKind::Other, "readonly: invalid option")),
+            }
         }
+        pos += 1;
     }
+    let words = &words[pos..];
 
-
+    if let Flags::Function = flags {
+        return print_out(&shell::readonly_functions());
+    }
     if print {
-        match &flags {
-            Flags::Variable | Flags::Context => {
-                match flags {
-                    Flags::Variable => {
-                        shell::print_readonly_vars();
-                    },
-                    Flags::Context => {
-                        if command.suffix.as_ref().unwrap().word.len() == pos {
-                            return Err(std::io::Error::new(std::io::ErrorKind::Other, "readonly needs an argument"));
-                        }
-                        shell::print_readonly_vars_context(command.suffix.as_ref().unwrap().word[pos].as_str());
-                    },
-                    _ => {},
-                }
-                shell::print_readonly_vars();
-            },
-            Flags::Function => {
-                shell::print_readonly_functions();
-            },
+        if let Flags::Variable = flags {
+            return print_out(&shell::readonly_vars());
         }
-        return Ok(());
+        let namespace = words.first().ok_or_else(|| error("readonly needs an argument"))?;
+        return print_out(&shell::readonly_vars_context(namespace));
     }
 
-    match flags {
-        Flags::Function => {
-            shell::print_readonly_functions();
-            return Ok(());
-        },
-        _ => {},
-    }
-
-    if command.suffix.as_ref().unwrap().word.len() == pos {
+    if words.is_empty() {
         return Err(std::io::Error::new(std::io::ErrorKind::Other, "readonly needs an argument"));
     }
-    if command.suffix.as_ref().unwrap().word[pos].as_str().contains('=') {
-        shell::add_readonly_var(command.suffix.as_ref().unwrap().word[pos].as_str());
-        return Ok(());
+    let mut result = Ok(());
+    for word in words.iter() {
+        let done = if word.contains('=') {
+            shell::add_readonly_var(word)
+        }
+        else {
+            shell::set_readonly_var(word)
+        };
+        if let Err(e) = done {
+            result = Err(error(e));
+        }
     }
-    
-    shell::set_readonly_var(command.suffix.as_ref().unwrap().word[pos].as_str());
-
-
-    Ok(())
 
+    result
 }
 
 pub fn exec_cmd(command: &SimpleCommand) -> Result<(),std::io::Error> {
 
-    if command.suffix.is_none() || command.suffix.as_ref().unwrap().word.len() < 1 {
-        return Err(std::io::Error::new(std::io::ErrorKind::Other, "exec needs an argument"));
-    }
-    
-    let suffix = command.suffix.as_ref().unwrap();
+    let words = operands(command);
 
     let mut empty_env = false;
     let mut dash = false;
-    let mut rename = false;
+    let mut name = None;
     let mut pos = 0;
-    
-    if suffix.word[0].contains('-') {
-        if suffix.word[0].contains('c') {
-            empty_env = true;
-            pos = 1;
-        }
-        if suffix.word[0].contains('l') {
-            dash = true;
-            pos = 1;
-        }
-        if suffix.word[0].contains('a') {
-            rename = true;
-            pos = 2;
-            if suffix.word.len() <= pos {
-                return Err(std::io::Error::new(std::io::ErrorKind::Other, "exec -a needs an argument"));
+
+    while pos < words.len() && words[pos].starts_with('-') {
+        let mut rename = false;
+        for option in words[pos].chars().skip(1) {
+            match option {
+                'c' => empty_env = true,
+                'l' => dash = true,
+                'a' => rename = true,
+                _ => return Err(std::io::Error::new(std::io::ErrorKind::Other, "exec: invalid option")),
             }
         }
-    }
-    if suffix.word[pos].contains('-') {
-        if suffix.word[pos].contains('c') {
-            empty_env = true;
-            pos += 1;
-        }
-        if suffix.word[pos].contains('l') {
-            dash = true;
-            pos += 1;
-        }
-        if suffix.word[pos].contains('a') {
-            rename = true;
-            pos += 2;
-            if suffix.word.len() <= pos {
-                return Err(std::io::Error::new(std::io::ErrorKind::Other, "exec -a needs an argument"));
+        pos += 1;
+        if rename {
+            match words.get(pos) {
+                Some(word) => name = Some(word.clone()),
+                None => return Err(std::io::Error::new(std::io::ErrorKind::Other, "exec -a needs an argument")),
             }
+            pos += 1;
         }
     }
 
-    log!("empty_env: {}, dash: {}, rename: {}, pos: {}", empty_env, dash, rename, pos);
+    let words = &words[pos..];
+    if words.is_empty() {
+        return Err(std::io::Error::new(std::io::ErrorKind::Other, "exec needs an argument"));
+    }
 
-    let mut args = Vec::new();
-    let mut cmd = String::new();
-    for i in pos..suffix.word.len() {
-        log!("i: {}, pos: {}", i, pos);
-        log!("word: {}", suffix.word[i]);
-        if i == pos && dash && rename {
-            let temp = "-".to_string() + suffix.word[pos - 1].as_str();
-            args.push(CString::new(temp.as_str()).unwrap());
-            cmd += suffix.word[pos - 1].as_str();
-            cmd += " ";
-            continue;
-        }
-        else if i == pos && dash {
-            let temp = "-".to_string() + suffix.word[i].as_str();
-            args.push(CString::new(temp.as_str()).unwrap());
-            cmd += suffix.word[i].as_str();
-            cmd += " ";
-            continue;
-        }
-        else if rename && i == pos {
-            cmd += suffix.word[pos - 1].as_str();
-            args.push(CString::new(suffix.word[pos - 1].as_str()).unwrap());
-            cmd += " ";
-            continue;
-        }
-        args.push(CString::new(suffix.word[i].as_str()).unwrap());
-        cmd += suffix.word[i].as_str();
-        cmd += " ";
+    let mut argv0 = name.unwrap_or_else(|| words[0].clone());
+    if dash {
+        argv0.insert(0, '-');
+    }
+
+    let mut args = vec![CString::new(argv0)?];
+    for word in words[1..].iter() {
+        args.push(CString::new(word.as_str())?);
     }
     log!("args: {:?}", args);
-    
 
-    let mut process = Process::new(args, suffix.word[pos].clone(),cmd);
+    let mut process = Process::new(args, words[0].clone(), words.join(" "));
 
-    let env = if empty_env {
-        Vec::new()
+    let mut env = Vec::new();
+    if !empty_env {
+        for (key, value) in env::vars_os() {
+            let mut var = key.into_vec();
+            var.push(b'=');
+            var.append(&mut value.into_vec());
+            env.push(CString::new(var)?);
+        }
     }
-    else {
-        env::vars().map(|(k, v)| CString::new(k + "=" + &v).unwrap()).collect()
-    };
 
     
     let result = eval::temp_execve(&mut process, &env);
@@ -647,31 +567,15 @@ pub fn exec_cmd(command: &SimpleCommand) -> Result<(),std::io::Error> {
 
 pub fn source(command: &SimpleCommand) -> Result<(),std::io::Error> {
 
-    if command.suffix.is_none() || command.suffix.as_ref().unwrap().word.len() < 1 {
+    let words = operands(command);
+    if words.is_empty() {
         return Err(std::io::Error::new(std::io::ErrorKind::Other, "source needs an argument"));
     }
 
-    let suffix = command.suffix.as_ref().unwrap();
-
-    let filename = suffix.word[0].clone();
-
-    let args = if suffix.word.len() > 1 {
-        let mut args = Vec::new();
-        for i in 1..suffix.word.len() {
-            args.push(suffix.word[i].clone());
-        }
-        args
-    }
-    else {
-        Vec::new()
-    };
-
-    for (pos, arg) in args.iter().enumerate() {
-        shell::add_var_context(&format!("{}={}", pos + 1, arg));
-    }
+    let filename = words[0].clone();
 
     // Open the file directly if it has a slash
-    let mut file = if filename.contains('/') {
+    let file = if filename.contains('/') {
         File::open(&filename)
     }// Open the file if it is in in the PATH
     else if shell::lookup_command(filename.as_str()).is_some() {
@@ -682,29 +586,24 @@ pub fn source(command: &SimpleCommand) -> Result<(),std::io::Error> {
     };
 
     if file.is_err() {
-        return Err(std::io::Error::new(std::io::ErrorKind::Other, format!("{} {}: No such file or directory",command.name ,filename)));
+        return Err(std::io::Error::new(std::io::ErrorKind::Other, format!("{}: No such file or directory", filename)));
     }
-    let mut file = file.unwrap();
-
     let mut contents = String::new();
-    file.read_to_string(&mut contents).unwrap();
+    file?.read_to_string(&mut contents)?;
 
-    let mut lexer = Lexer::new(contents.as_str());
-    let mut ast = match grammar::CompleteCommandParser::new().parse(contents.as_str(),lexer) {
-        Ok(ast) => ast,
-        Err(e) => {
-            return Err(std::io::Error::new(std::io::ErrorKind::Other, format!("Error parsing file: {}", e)));
-        }
-    };
+    // the arguments are only set while the file is evaluated
+    let mut saved = Vec::new();
+    for (pos, arg) in words[1..].iter().enumerate() {
+        let name = (pos + 1).to_string();
+        let old = shell::set_local_var(&name, arg);
+        saved.push((name, old));
+    }
 
-    log!("AST: {:?}", ast);
-    match eval::eval(&mut ast) {
-        Ok(_) => {},
-        Err(e) => {
-            return Err(std::io::Error::new(std::io::ErrorKind::Other, format!("Error evaluating string: {}", e)));
-        }
+    let result = eval_string(contents);
+
+    for (name, old) in saved.into_iter() {
+        shell::restore_local_var(&name, old);
     }
-    
 
-    Ok(())
+    result
 }
diff --git a/src/context.rs b/src/context.rs
index 7609ece..d027164 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -36,9 +36,22 @@ impl Var {
     }
 
     /// Adds an variable to the environment
-    fn export(&mut self) {
+    fn export(&self) {
+        // these are the only names and values an environment cannot hold
+        if self.name.is_empty() || self.name.contains(['=', '\0']) || self.value.contains('\0') {
+            return;
+        }
         env::set_var(&self.name, &self.value);
     }
+
+    /// Changes the value unless the variable is readonly.
+    fn set_value(&mut self, value: &str) -> Result<(), String> {
+        if self.readonly {
+            return Err(format!("{}: readonly variable", self.name));
+        }
+        self.value = value.to_string();
+        Ok(())
+    }
 }
 /*impl ToString for Var {
     fn to_string(&self) -> String {
@@ -47,7 +60,7 @@ impl Var {
 }*/
 impl Display for Var {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
-        write!(f, "{}", self.to_string())
+        write!(f, "{}={}", self.name, self.value)
     }
 }
 
@@ -136,23 +149,54 @@ impl ContextManager {
     /// Removes a variable from a context.
     /// It will never attempt to remove a variable from an exported context without a namespace.
     /// It will search the Context stack in reverse order for the variable, stopping at the first one it finds.
-    pub fn remove_var(&mut self, name: &str) {
-        if name.contains("::") {
-            let mut split = name.split("::");
-            let context_name = split.next().unwrap();
-            let var_name = split.next().unwrap();
-            if let Some(context) = self.get_context_by_name(context_name) {
-                context.borrow_mut().remove_var(var_name);
+    /// A readonly variable is not removed.
+    pub fn remove_var(&mut self, name: &str) -> Result<(), String> {
+        let (contexts, name) = match name.split_once("::") {
+            Some((namespace, name)) => (self.get_context_by_name(namespace).into_iter().collect(), name),
+            None => (self.writable_contexts(), name),
+        };
+        for context in contexts {
+            if let Some(var) = context.borrow().get_var(name) {
+                if var.borrow().readonly {
+                    return Err(format!("{}: readonly variable", name));
+                }
+            }
+            else {
+                continue;
             }
+            context.borrow_mut().remove_var(name);
+            if self.is_environment(&context) && env::var_os(name).is_some() {
+                env::remove_var(name);
+            }
+            return Ok(());
         }
-        else {
-            for context in self.context_stack.iter().rev() {
-                if context.borrow().get_var(name).is_some() {
-                    context.borrow_mut().remove_var(name);
-                    return;
-                }
+        Ok(())
+    }
+
+    /// Returns the contexts whose content can be changed, innermost first.
+    /// What is evaluated in an isolated context does not change the contexts below it.
+    fn writable_contexts(&self) -> Vec<Rc<RefCell<Context>>> {
+        let mut contexts = Vec::new();
+        for context in self.context_stack.iter().rev() {
+            contexts.push(context.clone());
+            if context.borrow().isolated {
+                break;
             }
         }
+        contexts
+    }
+
+    /// Checks if a context is the environment context.
+    fn is_environment(&self, context: &Rc<RefCell<Context>>) -> bool {
+        Rc::ptr_eq(context, &self.context_stack[0])
+    }
+
+    /// Finds a variable that can be changed and the context that holds it.
+    fn find_var(&self, name: &str) -> Option<(Rc<RefCell<Context>>, Rc<RefCell<Var>>)> {
+        self.writable_contexts().into_iter().find_map(|context| {
+            let var = context.borrow().get_var(name);
+            var.map(|var| (context, var))
+        })
     }
 
 
@@ -192,7 +236,7 @@ impl ContextManager {
             }
         }
         else {
-            for context in self.context_stack.iter().rev() {
+            for context in self.writable_contexts() {
                 if context.borrow().get_function(name).is_some() {
                     context.borrow_mut().remove_function(name);
                     return;
@@ -226,7 +270,7 @@ impl ContextManager {
     /// Adds a function to the current context if it doesn't already exist.
     /// If it does exist, it will be overwritten unless it is readonly.
     pub fn add_function(&mut self, name: &str, func: Rc<RefCell<FunctionBody>>) {
-        for context in self.context_stack.iter_mut().rev() {
+        for context in self.writable_contexts() {
             if context.borrow().get_function(name).is_some() {
                 context.borrow_mut().add_function(name, func);
                 return;
@@ -235,62 +279,95 @@ impl ContextManager {
         self.get_context().borrow_mut().add_function(name, func);
     }
 
-    /// Adds a variable to the current context.
-    pub fn add_var(&mut self, set: &str) {
-        let mut split = set.split("=");
-        let name = split.next().unwrap();
+    /// Assigns a variable.
+    /// If a context holds the variable it is changed there, otherwise it is added to the current context.
+    pub fn add_var(&mut self, set: &str) -> Result<(), String> {
+        let (name, value) = set.split_once('=').unwrap_or((set, ""));
 
-        for context in self.context_stack.iter_mut().rev() {
-            if context.borrow().get_var(name).is_some() {
-                if context.borrow().get_var(name).unwrap().borrow().readonly {
-                    return;
+        match self.find_var(name) {
+            Some((context, var)) => {
+                var.borrow_mut().set_value(value)?;
+                if self.is_environment(&context) && env::var_os(name).is_some() {
+                    var.borrow().export();
+                }
+            },
+            None => self.get_context().borrow_mut().add_var((name, value)),
+        }
+        Ok(())
+    }
+    /// Assigns a variable and makes it readonly.
+    pub fn add_var_readonly(&mut self, set: &str) -> Result<(), String> {
+        let (name, value) = set.split_once('=').unwrap_or((set, ""));
+        if let Some((namespace, name)) = name.split_once("::") {
+            if let Some(context) = self.get_context_by_name(namespace) {
+                let var = context.borrow().get_var(name);
+                match var {
+                    Some(var) => {
+                        var.borrow_mut().set_value(value)?;
+                        var.borrow_mut().make_readonly();
+                    },
+                    None => context.borrow_mut().add_var_readonly((name, value)),
                 }
-                context.borrow_mut().add_var(set);
-                return;
             }
+            return Ok(());
         }
-        self.get_context().borrow_mut().add_var(set);
+        self.add_var(set)?;
+        self.set_var_readonly(name)
     }
-    pub fn add_var_readonly(&mut self, set: &str) {
-        if set.contains("::") {
-            let mut split = set.split("::");
-            let context_name = split.next().unwrap();
-            let var_name = split.next().unwrap();
-            if let Some(context) = self.get_context_by_name(context_name) {
-                context.borrow_mut().add_var_readonly(var_name);
-            }
-            return;
+
+    /// Makes a variable readonly.
+    pub fn set_var_readonly(&mut self, name: &str) -> Result<(), String> {
+        let var = match name.contains("::") {
+            true => self.get_var(name),
+            false => self.find_var(name).map(|(_, var)| var),
+        };
+        match var {
+            Some(var) => {
+                var.borrow_mut().make_readonly();
+                Ok(())
+            },
+            None => Err(format!("{}: no such variable", name)),
         }
-        let mut split = set.split("=");
-        let name = split.next().unwrap();
+    }
 
-        for context in self.context_stack.iter_mut().rev() {
-            if context.borrow().get_var(name).is_some() {
-                context.borrow_mut().add_var_readonly(set);
-                return;
+    /// Makes a variable part of the environment, after assigning it if a value is given.
+    /// Returns false if there is no such variable.
+    pub fn export_var(&mut self, name: &str, value: Option<&str>) -> Result<bool, String> {
+        if let Some(value) = value {
+            self.add_var(&format!("{}={}", name, value))?;
+        }
+        let (context, var) = match self.find_var(name) {
+            Some(found) => found,
+            None => return Ok(false),
+        };
+        if !self.is_environment(&context) {
+            if !context.borrow().isolated {
+                context.borrow_mut().remove_var(name);
             }
+            self.get_env_context().borrow_mut().vars.insert(name.to_string(), var.clone());
         }
-        self.get_context().borrow_mut().add_var_readonly(set);
+        var.borrow().export();
+        Ok(true)
     }
 
-    pub fn set_var_readonly(&mut self, name: &str) {
-        if name.contains("::") {
-            let mut split = name.split("::");
-            let context_name = split.next().unwrap();
-            let var_name = split.next().unwrap();
-            if let Some(context) = self.get_context_by_name(context_name) {
-                context.borrow_mut().get_var(var_name).unwrap().borrow_mut().readonly = true;
-            }
-            return;
+    /// Sets a variable in the current context, whatever the other contexts hold, and returns what was there.
+    pub fn set_local_var(&mut self, name: &str, value: &str) -> Option<Rc<RefCell<Var>>> {
+        let context = self.get_context();
+        let old = context.borrow().get_var(name);
+        if !old.as_ref().map_or(false, |var| var.borrow().readonly) {
+            context.borrow_mut().add_var((name, value));
         }
-        for context in self.context_stack.iter_mut().rev() {
-            let mut var = context.borrow_mut().get_var(name);
-            if var.is_some() {
-                var.unwrap().borrow_mut().readonly = true;
-                return;
-            }
+        old
+    }
+    /// Undoes set_local_var.
+    pub fn restore_local_var(&mut self, name: &str, old: Option<Rc<RefCell<Var>>>) {
+        let context = self.get_context();
+        match old {
+            Some(var) => {
+                context.borrow_mut().vars.insert(name.to_string(), var);
+            },
+            None => context.borrow_mut().remove_var(name),
         }
-        self.get_context().borrow_mut().get_var(name).unwrap().borrow_mut().readonly = true;
     }
 
     /// Adds a variable to a particular context on the stack.
@@ -300,7 +377,14 @@ impl ContextManager {
 
     /// Looks up a command in the PATH variable.
     pub fn lookup_command(&self, cmd: &str) -> Option<String> {
-        for path in self.context_stack.first().unwrap().borrow().get_var("PATH").unwrap().borrow().value.split(":") {
+        if cmd.is_empty() {
+            return None;
+        }
+        if cmd.contains('/') {
+            return Some(cmd.to_string());
+        }
+        let path = self.get_var("PATH")?.borrow().value.clone();
+        for path in path.split(":") {
             let path = format!("{}/{}", path, cmd);
             let metadata = std::fs::metadata(&path);
             if metadata.is_ok() {
@@ -338,10 +422,10 @@ impl ContextManager {
                 }
             }
         }
-        for (_,context) in &self.exported_contexts {
+        for (namespace,context) in &self.exported_contexts {
             for (name, var) in &context.borrow().vars {
                 if var.borrow().readonly {
-                    vars.insert(name.clone(), var.clone());
+                    vars.insert(format!("{}::{}", namespace, name), var.clone());
                 }
             }
         }
@@ -362,8 +446,9 @@ impl ContextManager {
     /// Converts the environment variables into a HashMap of variables.
     fn convert_env() -> HashMap<String, Rc<RefCell<Var>>> {
         let mut vars = HashMap::new();
-        for (key, value) in std::env::vars() {
-            vars.insert(key.clone(), Rc::new(RefCell::new(Var::new(&key, &value))));
+        for (key, value) in std::env::vars_os() {
+            let (key, value) = (key.to_string_lossy(), value.to_string_lossy());
+            vars.insert(key.to_string(), Rc::new(RefCell::new(Var::new(&key, &value))));
         }
         vars
     }
@@ -393,11 +478,11 @@ impl Default for ContextManager {
         };
 
 
-        if env::var("PATH").is_err() {
+        if env::var_os("PATH").is_none() {
             vars.insert("PATH".to_owned(), Rc::new(RefCell::new(Var::new("PATH", "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"))));
         }
-        if env::var("PWD").is_err() {//TODO: Change this to use a nix function that will be more reliable
-            vars.insert("PWD".to_owned(), Rc::new(RefCell::new(Var::new("PWD", nix::unistd::getcwd().unwrap().to_str().unwrap()))));
+        if env::var_os("PWD").is_none() {//TODO: Change this to use a nix function that will be more reliable
+            vars.insert("PWD".to_owned(), Rc::new(RefCell::new(Var::new("PWD", &env::current_dir().unwrap_or_default().to_string_lossy()))));
         }
         vars.insert("PS1".to_owned(), Rc::new(RefCell::new(Var::new("PS1", ps1))));
         vars.insert("PS2".to_owned(), Rc::new(RefCell::new(Var::new("PS2", "> "))));
@@ -433,6 +518,8 @@ pub struct Context {
     /// Stores the functions of the context.
     functions: HashMap<String, Rc<RefCell<FunctionBody>>>,
     pub readonly_functions: HashSet<String>,
+    /// Whether what is evaluated in the context leaves the contexts below it alone.
+    pub isolated: bool,
 }
 
 impl Context {
@@ -441,6 +528,7 @@ impl Context {
             vars,
             functions: HashMap::new(),
             readonly_functions: HashSet::new(),
+            isolated: false,
         }
     }
 
@@ -466,7 +554,7 @@ impl Context {
     /// Adds a function to the context with a given name.
     pub fn add_function(&mut self, name: &str, body: Rc<RefCell<FunctionBody>>) {
         if self.readonly_functions.contains(name) {
-            eprintln!("Can't override readonly function {}", name);
+            crate::errln!("Can't override readonly function {}", name);
             return;
         }
         self.functions.insert(name.to_string(), body);
@@ -477,28 +565,6 @@ impl Context {
             self.readonly_functions.insert(name.to_string());
         }
     }
-
-    /// Internal function that removes quotes from a string.
-    /// # Arguments
-    /// * `word` - The &str to remove quotes from.
-    /// # Example
-    /// ```
-    /// use shell::context::Context;
-    /// let word = "\"hello\"";
-    /// let trimmed = Context::trim(word);
-    /// assert_eq!(trimmed, "hello");
-    /// ```
-    fn trim(word: &str) -> String {
-        if (word.starts_with("\"") && word.ends_with("\"")) || (word.starts_with("'") && word.ends_with("'")){
-            let mut chars = word.chars();
-            chars.next();
-            chars.next_back();
-            chars.collect::<String>()
-        }
-        else {
-            word.to_string()
-        }
-    }
 }
 
 impl Default for Context {
@@ -507,6 +573,7 @@ impl Default for Context {
             vars: HashMap::new(),
             functions: HashMap::new(),
             readonly_functions: HashSet::new(),
+            isolated: false,
         }
     }
 }
@@ -517,50 +584,11 @@ impl ContextUtils<&str> for Context {
     /// # Arguments
     /// * `var` - The &str set that is to be added to the context.
     fn add_var(&mut self, var: &str) {
-        let (name, value) = if var.contains("=") {
-            let mut split = var.split("=");
-            (split.next().unwrap(), split.next().unwrap())
-        } else {
-            (var, "")
-        };
-
-        let var_struct = Var::new(name, &Self::trim(value));
-    
-        let key = if var.chars().nth(0).unwrap().to_digit(10).is_some() {
-            var.chars().filter(|c| {
-                (*c == '0') | (*c == '1') | (*c == '2') | (*c == '3') | (*c == '4') | (*c == '5') | (*c == '6') | (*c == '7') | (*c == '8') | (*c == '9')
-            }).collect::<String>().parse::<usize>().unwrap().to_string()
-        }
-        else {
-            name.to_string()
-        };
-
-
-        self.add_var(var_struct);
+        self.add_var(var.split_once('=').unwrap_or((var, "")));
     }
 
     fn add_var_readonly(&mut self, var: &str) {
-        let (name, value) = if var.contains("=") {
-            let mut split = var.split("=");
-            (split.next().unwrap(), split.next().unwrap())
-        } else {
-            (var, "")
-        };
-
-        let mut var_struct = Var::new(name, &Self::trim(value));
-    
-        let key = if var.chars().nth(0).unwrap().to_digit(10).is_some() {
-            var.chars().filter(|c| {
-                (*c == '0') | (*c == '1') | (*c == '2') | (*c == '3') | (*c == '4') | (*c == '5') | (*c == '6') | (*c == '7') | (*c == '8') | (*c == '9')
-            }).collect::<String>().parse::<usize>().unwrap().to_string()
-        }
-        else {
-            name.to_string()
-        };
-
-        var_struct.readonly = true;
-        
-        self.add_var(var_struct);
+        self.add_var_readonly(var.split_once('=').unwrap_or((var, "")));
     }
 
 }
@@ -571,37 +599,11 @@ impl ContextUtils<(&str, &str)> for Context {
     /// # Arguments
     /// * `var` - A tuple of &str to be add to the context.
     fn add_var(&mut self, (name, value): (&str, &str)) {
-        let var_struct = Var::new(name, &Self::trim(value));
-
-        let key = if name.chars().nth(0).unwrap().to_digit(10).is_some() {
-            name.chars().filter(|c| {
-                (*c == '0') | (*c == '1') | (*c == '2') | (*c == '3') | (*c == '4') | (*c == '5') | (*c == '6') | (*c == '7') | (*c == '8') | (*c == '9')
-            }).collect::<String>().parse::<usize>().unwrap().to_string()
-        }
-        else {
-            name.to_string()
-        };
-
-
-        self.add_var(var_struct);
+        self.add_var(Var::new(name, value));
     }
 
-
     fn add_var_readonly(&mut self, (name, value): (&str, &str)) {
-        let mut var_struct = Var::new(name, &Self::trim(value));
-
-        let key = if name.chars().nth(0).unwrap().to_digit(10).is_some() {
-            name.chars().filter(|c| {
-                (*c == '0') | (*c == '1') | (*c == '2') | (*c == '3') | (*c == '4') | (*c == '5') | (*c == '6') | (*c == '7') | (*c == '8') | (*c == '9')
-            }).collect::<String>().parse::<usize>().unwrap().to_string()
-        }
-        else {
-            name.to_string()
-        };
-
-        var_struct.readonly = true;
-
-        self.add_var(var_struct);
+        self.add_var_readonly(Var::new(name, value));
     }
 
 }
diff --git a/src/eval.rs b/src/eval.rs
index 05294ab..8258cae 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -627,16 +627,13 @@ fn eval_function(command: &mut SimpleCommand) -> Result<i32,String> {
     //eprintln!("{:?}", function.clone().unwrap());
     //eprintln!("{:?}", command);
     shell::push_context_new();
-    shell::add_var_context(&format!("0={}", command.name));
+    shell::set_local_var("0", &command.name);
     //eprintln!("0={}", command.name);
     if command.suffix.is_some() {
         let suffix = command.suffix.as_ref().unwrap();
         for (i, arg) in suffix.word.iter().enumerate() {
-            if arg == "&" {
-                break;
-            }
             //eprintln!("{}={}", i+1, arg);
-            shell::add_var_context(&format!("{}={}", i+1, arg));
+            shell::set_local_var(&(i+1).to_string(), arg);
         }
     }
 
diff --git a/src/shell.rs b/src/shell.rs
index fecca21..083f49a 100644
--- a/src/shell.rs
+++ b/src/shell.rs
@@ -1,6 +1,6 @@
 use std::collections::{BTreeMap,HashSet, HashMap};
 use crate::jobs::{Job, Process, JobControl, JobUtils, JobId};
-use crate::trap;
+use crate::errln;
 use nix::unistd::Pid;
 use std::cell::RefCell;
 use std::rc::Rc;
@@ -124,7 +124,7 @@ impl Shell {
             interactive: true,
             //var_data: VarData::new(),
             curr_directory: String::new(),
-            physical_directory: getcwd().unwrap(),
+            physical_directory: getcwd().unwrap_or_default(),
             jobctl: false,
             job_warning: 0,
             background_pid: Pid::from_raw(-1),
@@ -150,7 +150,7 @@ impl Shell {
     /// In the future this should load it from the config file.
     pub fn load_history(&self) {
         if self.readline.borrow_mut().load_history(&self.history_location).is_err() {
-            eprintln!("No previous history.");
+            errln!("No previous history.");
         }
     }
 
@@ -158,7 +158,7 @@ impl Shell {
     /// It should get called by any function that causes the shell to exit.
     pub fn save_history(&self) {
         if self.readline.borrow_mut().save_history(&self.history_location).is_err() {
-            eprintln!("Could not save history.");
+            errln!("Could not save history.");
         }
     }
 
@@ -176,7 +176,7 @@ impl Shell {
             None => None,
             Some(alias) => {
                 let mut args = alias.split_whitespace();
-                let command = args.next().unwrap();
+                let command = args.next()?;
                 let args: Vec<String> = args.map(|s| s.to_string()).collect();
                 if args.is_empty() {
                     Some((command.to_string(), None))
@@ -187,11 +187,9 @@ impl Shell {
         }
     }
 
-    /// This function prints out all the aliases that are currently stored in the shell.
-    pub fn display_aliases(&self) {
-        for (key, value) in &self.aliases {
-            println!("alias {}='{}'", key, value);
-        }
+    /// This function returns a formatted String with all the aliases that are currently stored in the shell.
+    pub fn display_aliases(&self) -> String {
+        self.aliases.iter().map(|(key, value)| format!("alias {}='{}'\n", key, value)).collect()
     }
 
     /// This function checks to see if there are any jobs in the background.
@@ -273,17 +271,17 @@ impl Shell {
         self.context_manager.add_var_pos(set, position);
         //self.var_data.add_var(set, position);
     }
-    /// This function adds a variable to the current context.
-    pub fn add_var_context(&mut self, set: &str) {
-        self.context_manager.add_var(set);
+    /// This function assigns a variable.
+    pub fn add_var_context(&mut self, set: &str) -> Result<(), String> {
+        self.context_manager.add_var(set)
         //let pos = self.var_data.get_current_context_pos();
         //self.var_data.add_var(set, pos);
     }
-    pub fn add_var_readonly(&mut self, set: &str) {
-        self.context_manager.add_var_readonly(set);
+    pub fn add_var_readonly(&mut self, set: &str) -> Result<(), String> {
+        self.context_manager.add_var_readonly(set)
     }
-    pub fn set_var_readonly(&mut self, var: &str) {
-        self.context_manager.set_var_readonly(var);
+    pub fn set_var_readonly(&mut self, var: &str) -> Result<(), String> {
+        self.context_manager.set_var_readonly(var)
     }
     pub fn all_readonly_vars(&self) -> BTreeMap<String, Rc<RefCell<crate::context::Var>>> {
         self.context_manager.all_readonly_vars()
@@ -293,8 +291,8 @@ impl Shell {
     }
 
     /// Wrapper to the context manager remove var function.
-    pub fn remove_var(&mut self, var: &str) {
-	self.context_manager.remove_var(var);
+    pub fn remove_var(&mut self, var: &str) -> Result<(), String> {
+	self.context_manager.remove_var(var)
     }
     /// This function takes in a &str and returns the value of the variable if it exists.
     pub fn expand_variable(&mut self, var: &str) -> Option<String> {
@@ -331,19 +329,6 @@ impl Shell {
     pub fn remove_function(&mut self, name: &str) {
 	    self.context_manager.remove_function(name);
     }
-
-    /// This is an internal function that trims off the quotes from a string.
-    fn trim(word: &str) -> String {
-        if (word.starts_with("\"") && word.ends_with("\"")) || (word.starts_with("'") && word.ends_with("'")){
-            let mut chars = word.chars();
-            chars.next();
-            chars.next_back();
-            chars.collect::<String>()
-        }
-        else {
-            word.to_string()
-        }
-    }
 }
 
 /// This is an implementation of the ShellJobUtils trait for the Shell struct.
@@ -381,14 +366,11 @@ impl ShellAliasUtils<&str> for Shell {
     /// This variant takes in a string that contains and equal sign ('=').
     /// The string is split into two parts and the first part is used as the alias name
     /// and the second part is used as the alias value.
-    /// We cut off the quotes in the value if they exist.
     fn add_alias(&mut self, input: &str) {
-        let split = input.split('=').collect::<Vec<&str>>();
-        if split.len() != 2 {
-            eprintln!("Invalid alias");
-            return;
+        match input.split_once('=') {
+            Some((alias, value)) => self.add_alias((alias, value)),
+            None => errln!("Invalid alias"),
         }
-        self.aliases.insert(split[0].to_string(), Self::trim(split[1]));
     }
 }
 
@@ -401,9 +383,8 @@ impl ShellAliasUtils<(&str, &str)> for Shell {
     /// removed before calling this variant.
     /// The first part of the tuple is used as the alias name
     /// and the second part is used as the alias value.
-    /// We cut off the quotes in the value if they exist.
     fn add_alias(&mut self, (alias, value): (&str, &str)) {
-        self.aliases.insert(alias.to_string(), Self::trim(value));
+        self.aliases.insert(alias.to_string(), value.to_string());
     }
 }
 
@@ -434,10 +415,10 @@ pub fn remove_alias(alias: &str) {
     shell.aliases.remove(alias);
 }
 
-/// This function prints out all the aliases in the shell.
-pub fn display_aliases() {
+/// This function returns a formatted String with all the aliases in the shell.
+pub fn display_aliases() -> String {
     let shell = SHELL.get().borrow();
-    shell.display_aliases();
+    shell.display_aliases()
 }
 
 /// This is a wrapper function that saves the readline history.
@@ -626,39 +607,50 @@ pub fn add_var(set: &str, index: usize) {
     let mut shell = SHELL.get().borrow_mut();
     shell.add_var(set, index);
 }
-pub fn add_readonly_var(var: &str) {
+pub fn add_readonly_var(var: &str) -> Result<(), String> {
+    let mut shell = SHELL.get().borrow_mut();
+    shell.add_var_readonly(var)
+}
+pub fn set_readonly_var(name: &str) -> Result<(), String> {
+    let mut shell = SHELL.get().borrow_mut();
+    shell.set_var_readonly(name)
+}
+pub fn remove_var(var: &str) -> Result<(), String> {
     let mut shell = SHELL.get().borrow_mut();
-    shell.add_var_readonly(var);
+    shell.remove_var(var)
 }
-pub fn set_readonly_var(name: &str) {
+/// This function assigns a variable in the context that holds it or else in the current context.
+pub fn add_var_context(set: &str) -> Result<(), String> {
     let mut shell = SHELL.get().borrow_mut();
-    shell.set_var_readonly(name);
+    shell.add_var_context(set)
 }
-pub fn remove_var(var: &str) {
+/// This function makes a variable part of the environment.
+pub fn export_var(name: &str, value: Option<&str>) -> Result<bool, String> {
     let mut shell = SHELL.get().borrow_mut();
-    shell.remove_var(var);
+    shell.context_manager.export_var(name, value)
 }
-/// This function adds a variable to the shell at the current context.
-pub fn add_var_context(set: &str) {
+/// This function sets a variable of the current context and returns what was there.
+pub fn set_local_var(name: &str, value: &str) -> Option<Rc<RefCell<crate::context::Var>>> {
     let mut shell = SHELL.get().borrow_mut();
-    shell.add_var_context(set);
+    shell.context_manager.set_local_var(name, value)
+}
+/// This function undoes set_local_var.
+pub fn restore_local_var(name: &str, old: Option<Rc<RefCell<crate::context::Var>>>) {
+    let mut shell = SHELL.get().borrow_mut();
+    shell.context_manager.restore_local_var(name, old)
 }
 /// This function takes in a variable name and returns the value of that variable if it exists.
 pub fn expand_var(var: &str) -> Option<String> {
     let mut shell = SHELL.get().borrow_mut();
     shell.expand_variable(var)
 }
-pub fn print_readonly_vars() {
+pub fn readonly_vars() -> String {
     let shell = SHELL.get().borrow();
-    shell.all_readonly_vars().iter().for_each(|var| {
-        println!("{}", var.1.borrow());
-    });
+    shell.all_readonly_vars().iter().map(|(name, var)| format!("{}={}\n", name, var.borrow().value)).collect()
 }
-pub fn print_readonly_vars_context(namespace: &str) {
+pub fn readonly_vars_context(namespace: &str) -> String {
     let shell = SHELL.get().borrow();
-    shell.all_readonly_vars_context(namespace).iter().for_each(|var| {
-        println!("{}", var.1.borrow());
-    });
+    shell.all_readonly_vars_context(namespace).iter().map(|(name, var)| format!("{}={}\n", name, var.borrow().value)).collect()
 }
 
 /// This function sets $0 to the script name.
@@ -689,9 +681,7 @@ pub fn remove_function(name: &str) {
 	let mut shell = SHELL.get().borrow_mut();
 	shell.remove_function(name);
 }
-pub fn print_readonly_functions() {
+pub fn readonly_functions() -> String {
     let shell = SHELL.get().borrow();
-    for name in shell.get_readonly_functions().iter() {
-        println!("{}", name);
-    }
+    shell.get_readonly_functions().iter().map(|name| format!("{}\n", name)).collect()
 }
-- 
2.43.0


From 40337c5eb632d03d69731479486d70d523bc418a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:21 +0000
Subject: [PATCH 04/15] fix: separators, reserved words as arguments,
 unterminated quotes, background with !

---
 src/grammar.lalrpop | 51 +++++++++++++++++++++++++++------------------
 src/lexer.rs        | 24 ++++++++++++++++++++-
 2 files changed, 54 insertions(+), 21 deletions(-)

diff --git a/src/grammar.lalrpop b/src/grammar.lalrpop
index c71df9e..026f238 100644
--- a/src/grammar.lalrpop
+++ b/src/grammar.lalrpop
@@ -35,8 +35,10 @@ extern {
         "for"           => lexer::Token::For,
         "in"            => lexer::Token::In,
         "if"            => lexer::Token::If,
+        "then"          => lexer::Token::Then,
         "else"          => lexer::Token::Else,
         "elif"          => lexer::Token::Elif,
+        "fi"            => lexer::Token::Fi,
         "while"         => lexer::Token::While,
         "until"         => lexer::Token::Until,
         "do"            => lexer::Token::Do,
@@ -51,15 +53,19 @@ extern {
 }
 
 pub CompleteCommand: ast::CompleteCommand = {
-    <sep:Separator> <lst:List> => ast::CompleteCommand{list: Some(lst)},
-    <lst:List> <sep:Separator> => ast::CompleteCommand{list: Some(lst)},
-    <lst:List> => ast::CompleteCommand{list: Some(lst)},
-    <sep:Separator> => ast::CompleteCommand{list: None},
+    <sep:Separator> <lst:List> <end:End> => ast::CompleteCommand{list: Some(lst)},
+    <lst:List> <end:End> => ast::CompleteCommand{list: Some(lst)},
+    <end:End> => ast::CompleteCommand{list: None},
+}
+
+End: () = {
+    <eof:"EOF"> => (),
+    <sep:Separator> <eof:"EOF"> => (),
 }
 
 List: ast::List = {
-    <list:List> <sepop:CmdSepOp> <and_or:AndOr> => {
-                                let mut nlist = list.clone(); 
+    <list:List> <sep:Separator> <and_or:AndOr> => {
+                                let mut nlist = list;
                                 nlist.push(and_or); 
                                 nlist
                         },
@@ -78,7 +84,7 @@ Pipeline: ast::Pipeline = {
     <ps:PipelineSeq> => ast::Pipeline{bang: false, pipe_sequence: ps, background: false},
     <bang:"bang"> <ps:PipelineSeq> => ast::Pipeline{bang: true, pipe_sequence: ps, background: false},
     <ps:PipelineSeq> <op:CmdBackgroundOp> => ast::Pipeline{bang: false, pipe_sequence: ps, background: true},
-    <bang:"bang"> <ps:PipelineSeq> <op:CmdBackgroundOp> => ast::Pipeline{bang: true, pipe_sequence: ps, background: false},
+    <bang:"bang"> <ps:PipelineSeq> <op:CmdBackgroundOp> => ast::Pipeline{bang: true, pipe_sequence: ps, background: true},
 }
 
 PipelineSeq: ast::PipeSequence = {
@@ -155,7 +161,7 @@ Prefix: ast::Prefix = {
 Suffix: ast::Suffix = {
     <ior:IORedirect> => ast::Suffix{io_redirect: vec![ior], word: Vec::new()},
     <cmdsf:Suffix> <ior:IORedirect> => {let mut ncmdsf = cmdsf.clone(); ncmdsf.io_redirect.push(ior); ncmdsf},
-    <word:"Word"> => ast::Suffix{io_redirect: Vec::new(), word: vec![word.to_string()]},
+    <word:Word> => ast::Suffix{io_redirect: Vec::new(), word: vec![word]},
     <cmdsf:Suffix> <word:Word> => {let mut ncmdsf = cmdsf.clone(); ncmdsf.word.push(word.to_string()); ncmdsf},
     <asm:Assignment> => ast::Suffix{io_redirect: Vec::new(), word: vec![asm]},
     <cmdsf:Suffix> <asm:Assignment> => {let mut ncmdsf = cmdsf.clone(); ncmdsf.word.push(asm); ncmdsf},
@@ -199,26 +205,31 @@ CmdWord: String = {
 Word: String = {
     <word:"Word"> => word.to_string(),
     <word:Subshell> => word,
+    <word:ReservedWord> => word.to_string(),
 }
 
-CmdSepOp: String = {
-    <sep:";"> => ";".to_string(),
-    <nl:"newline_list"> => "\n".to_string(),
+// A reserved word is only special where a command starts.
+ReservedWord: &'static str = {
+    "for" => "for",
+    "in" => "in",
+    "if" => "if",
+    "then" => "then",
+    "else" => "else",
+    "elif" => "elif",
+    "fi" => "fi",
+    "while" => "while",
+    "do" => "do",
+    "done" => "done",
+    "case" => "case",
+    "esac" => "esac",
 }
+
 CmdBackgroundOp: String = {
     <sep:"&"> => "&".to_string(),
 }
 
 Separator: String = {
     <sep:";"> => ";".to_string(),
-    <sep:";"> <nl:"newline_list"> <nl2:"newline_list"> => ";\n".to_string(),
-    <sep:";"> <nl:"newline_list"> <nl2:"newline_list"> <eof:"EOF"> => ";\n".to_string(),
+    <sep:";"> <nl:"newline_list"> => ";\n".to_string(),
     <nl:"newline_list"> => "\n".to_string(),
-    <eof:"EOF"> => "".to_string(),
-    <nl:"newline_list"> <eof:"EOF"> => "\n".to_string(),
-    <nl:"newline_list"> <nl2:"newline_list"> => "\n".to_string(),
-    <nl:"newline_list"> <nl2:"newline_list"> <eof:"EOF"> => "\n".to_string(),
-    <sep:";"> <eof:"EOF"> => ";".to_string(),
 }
-
-
diff --git a/src/lexer.rs b/src/lexer.rs
index 4e0943d..a84a7ba 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -9,6 +9,7 @@ pub type Span<T, E> = Result<(usize, T, usize), E>;
 #[derive(Debug)]
 pub enum Error {
     UnrecognizedChar(usize, char, usize),
+    Unterminated(usize, char),
 }
 
 impl Display for Error {
@@ -17,6 +18,9 @@ impl Display for Error {
             Error::UnrecognizedChar(start, chr, end) => {
                 write!(f, "Unrecognized character '{}' at position {}", chr, start)
             }
+            Error::Unterminated(start, chr) => {
+                write!(f, "Missing end of '{}' at position {}", chr, start)
+            }
         }
     }
 }
@@ -318,11 +322,17 @@ impl<'input> Lexer<'input> {
 
     fn single_quote(&mut self, start: usize, end: usize) -> Result<(usize, Token<'input>, usize), Error> {
         let (word, end) = self.take_until_alt(start, end, |c| c == '\'');
+        if !word[1..].ends_with('\'') {
+            return Err(Error::Unterminated(start, '\''));
+        }
         //self.advance();
         Ok((start, Token::Word(&word[0..]), end))
     }
     fn double_quote(&mut self, start: usize, end: usize) -> Result<(usize, Token<'input>, usize), Error> {
         let (word, end) = self.take_until_alt(start, end, |c| c == '"');
+        if !word[1..].ends_with('"') {
+            return Err(Error::Unterminated(start, '"'));
+        }
         //self.advance();
         Ok((start, Token::Word(&word[0..]), end))
     }
@@ -332,11 +342,17 @@ impl<'input> Lexer<'input> {
         match chr {
             '$' => {
                 let (word, end) = self.take_until_alt(start, end, |c| c == ')');
+                if !word.ends_with(')') {
+                    return Err(Error::Unterminated(start, '$'));
+                }
 
                 return Ok((start, Token::Word(&word[0..]), end));
             },
             '`' => {
                 let (word, end) = self.take_until_alt(start, end, |c| c == '`');
+                if !word[1..].ends_with('`') {
+                    return Err(Error::Unterminated(start, '`'));
+                }
                 return Ok((start, Token::Word(&word[0..]), end));
             },
             _ => {
@@ -345,11 +361,17 @@ impl<'input> Lexer<'input> {
         }
     }
 
+    /// Blank lines and lines that only hold a comment are part of the list.
     fn newline_list(&mut self, start: usize, end: usize) -> Result<(usize, Token<'input>, usize), Error> {
         while let Some((_, chr, _)) = self.lookahead {
             //eprintln!("chr: {}", chr);
             match chr {
-                '\n' => self.advance(),
+                '#' => {
+                    self.take_until(start, end, |c| c == '\n');
+                },
+                chr if chr.is_whitespace() => {
+                    self.advance();
+                },
                 _ => break,
             };
         }
-- 
2.43.0


From 2d7003ed139c591b48502a3c87589177beecac3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:34 +0000
Subject: [PATCH 05/15] fix: script and -c modes, exit status, readline and
 completion errors

---
 src/completion.rs |  12 +++--
 src/main.rs       | 132 +++++++++++++++++++++++++++++-----------------
 2 files changed, 92 insertions(+), 52 deletions(-)

diff --git a/src/completion.rs b/src/completion.rs
index 76bd276..658af27 100644
--- a/src/completion.rs
+++ b/src/completion.rs
@@ -97,8 +97,9 @@ impl Completer for PathCompleter {
 }
 
 fn command_complete(line: &str) -> Vec<Pair> {
-    let path = {
-        env::var_os("PATH").unwrap().into_string().unwrap()
+    let path = match env::var_os("PATH") {
+        Some(path) => path.to_string_lossy().into_owned(),
+        None => return Vec::new(),
         //shell::expand_var("PATH").unwrap().clone()
     };
     let paths = path.split(":");
@@ -110,8 +111,11 @@ fn command_complete(line: &str) -> Vec<Pair> {
             continue;
         }
         for entry in entry_fs.unwrap() {
-            let entry = entry.unwrap();
-            let name = entry.file_name().into_string().unwrap();
+            // a name that is not text cannot be typed either
+            let name = match entry.map(|entry| entry.file_name().into_string()) {
+                Ok(Ok(name)) => name,
+                _ => continue,
+            };
 
             if !name.starts_with(line) {
                 continue;
diff --git a/src/main.rs b/src/main.rs
index a7e4f64..5068d37 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -34,7 +34,7 @@ use rustyline::error::ReadlineError;
 
 fn main() {
 
-    let args: Vec<String> = env::args().collect();
+    let args: Vec<String> = env::args_os().map(|arg| arg.to_string_lossy().into_owned()).collect();
 
     let input = parse_args(args);
 
@@ -77,12 +77,13 @@ fn main() {
         interactive_loop();
     }
     else if input.is_some() {
-        read_from_args(&input.unwrap());
+        evaluate(&input.unwrap());
     }
     else if input.is_none() {
         script_loop(&shell::get_script_name());
     }
 
+    std::process::exit(eval::get_exit_code());
 }
 
 /// This function reads the commandline arguments passed into the shell and parses them.
@@ -105,8 +106,7 @@ fn parse_args(args: Vec<String>) -> Option<String> {
     let mut pos = 0;
 
     for arg in args.iter() {
-            println!("arg: {}", arg);
-        if arg.chars().nth(0).unwrap() == '-' && !non_interactive_mode {
+        if arg.starts_with('-') && !non_interactive_mode {
             read_from_args = parse_dash_arg(&arg);
             if read_from_args {
                 break;
@@ -133,8 +133,6 @@ fn parse_args(args: Vec<String>) -> Option<String> {
 
         args.drain(0..=pos);
 
-        println!("{:?}", args);
-
         let output = args.join(" ");
 
         return Some(output);
@@ -150,7 +148,7 @@ fn parse_args(args: Vec<String>) -> Option<String> {
 /// This is how we check to see if the we are going to evaluate the commandline arguments as a script.
 fn parse_dash_arg(arg: &str) -> bool {
     let mut read_from_args = false;
-    if arg.chars().nth(0).unwrap() == '-' {
+    if arg.starts_with('-') {
         let mut chars = arg.chars();
         chars.next();
         for c in chars {
@@ -186,7 +184,9 @@ fn interactive_loop() {
     loop {
         let input;
 
-        let readline = rl.borrow_mut().readline(shell::expand_var("PS1").unwrap().as_str());
+        jobs::reap_jobs();
+
+        let readline = rl.borrow_mut().readline(shell::expand_var("PS1").unwrap_or_default().as_str());
         match readline {
             Ok(line) => {
                 //rl.borrow_mut().add_history_entry(line.as_str());
@@ -201,8 +201,12 @@ fn interactive_loop() {
             /*Err(ReadlineError::Errno(error)) => {
                 continue;
             },*/
+            Err(ReadlineError::Io(err)) if err.kind() == io::ErrorKind::InvalidData => {
+                errln!("Readline Error: {:?}", err);
+                continue;
+            },
             Err(err) => {
-                println!("Readline Error: {:?}", err);
+                errln!("Readline Error: {:?}", err);
                 break;
             }
         }
@@ -215,26 +219,7 @@ fn interactive_loop() {
             continue;
         }*/
 
-        let lexer = Lexer::new(&input);        
-        let mut ast = match grammar::CompleteCommandParser::new()
-            .parse(&input,lexer) {
-                Ok(ast) => ast,
-                Err(err) => {
-                    println!("Error: {:?}", err);
-                    continue;
-                }
-            };
-       
-        //eprintln!("{:?}", ast);
-
-        let result = eval::eval(&mut ast);
-
-        match result {
-            Ok(_) => {},
-            Err(err) => {
-                println!("{}", err);
-            }
-        }
+        evaluate(&input);
 
         //let ast = parser::parse_input(&input).unwrap();
 
@@ -246,36 +231,87 @@ fn interactive_loop() {
 }
 
 
-/// This function needs to be changed since it won't work with how the parser works.
-/// This function takes a file name and puts the contents of the file into a buffer.
-/// The buffer is then passed into the parser and evaluated.
+/// This function takes a file name and evaluates the contents of the file line by line.
+/// Like in interactive mode, a line with an open bracket is continued by the lines after it.
 fn script_loop(script_name: &str) {
-    let file = File::open(script_name).unwrap();
+    let file = match File::open(script_name) {
+        Ok(file) => file,
+        Err(err) => {
+            errln!("{}: {}", script_name, err);
+            eval::set_exit_status(127);
+            return;
+        }
+    };
     let mut buf_reader = BufReader::new(file);
+    let mut input = String::new();
     loop {
+        let mut line = Vec::new();
+        let read = match buf_reader.read_until(b'\n', &mut line) {
+            Ok(read) => read,
+            Err(err) => {
+                errln!("{}: {}", script_name, err);
+                eval::set_exit_status(126);
+                return;
+            }
+        };
+        input.push_str(&String::from_utf8_lossy(&line));
 
-        let mut input = String::new();
-        buf_reader.read_line(&mut input).unwrap();
-
+        if read != 0 && has_open_bracket(&input) {
+            continue;
+        }
 
-        let lexer = Lexer::new(&input);        
-        let mut ast = grammar::CompleteCommandParser::new()
-            .parse(&input,lexer)
-            .unwrap();
+        if !input.trim().is_empty() {
+            evaluate(&input);
+        }
+        input.clear();
 
-        let _result = eval::eval(&mut ast);
+        if read == 0 {
+            return;
+        }
+        jobs::reap_jobs();
+    }
+}
 
+/// This function checks if there is a bracket that is not closed, in the same way as readline does.
+fn has_open_bracket(input: &str) -> bool {
+    let mut open = Vec::new();
+    for chr in input.chars() {
+        match chr {
+            '(' => open.push(')'),
+            '[' => open.push(']'),
+            '{' => open.push('}'),
+            ')' | ']' | '}' => {
+                if open.pop() != Some(chr) {
+                    return false;
+                }
+            },
+            _ => {},
+        }
     }
+    !open.is_empty()
 }
 
-/// This function takes in the commandline arguments as a &str and evaluates it.
-fn read_from_args(input: &str) {
-    let lexer = Lexer::new(&input);        
-    let mut ast = grammar::CompleteCommandParser::new()
-        .parse(&input,lexer)
-        .unwrap();
+/// This function parses its input and evaluates it.
+/// Input that cannot be parsed has no effect but is reported.
+fn evaluate(input: &str) {
+    let lexer = Lexer::new(input);
+    let mut ast = match grammar::CompleteCommandParser::new()
+        .parse(input,lexer) {
+            Ok(ast) => ast,
+            Err(err) => {
+                errln!("Error: {:?}", err);
+                eval::set_exit_status(2);
+                return;
+            }
+        };
 
-    let _result = eval::eval(&mut ast);
+    match eval::eval(&mut ast) {
+        Ok(_) => {},
+        Err(err) => {
+            errln!("{}", err);
+            eval::set_exit_status(1);
+        }
+    }
 }
 
 
-- 
2.43.0


From eff8449c5441730cf6d67a66d148c87d2aa2ad4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:48 +0000
Subject: [PATCH 06/15] fix: report the state a job is in after the event

---
 src/jobs.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/jobs.rs b/src/jobs.rs
index bd97e00..01cbf55 100644
--- a/src/jobs.rs
+++ b/src/jobs.rs
@@ -475,21 +475,6 @@ fn wait_one(block: usize, job: &Option<Rc<RefCell<Job>>>) -> Result<Option<Pid>,
         None => return Ok(Some(pid)),
     };
 
-    let message = if job.as_ref().map_or(false, |job| *job.borrow() == *this_job.borrow()) {
-        format_status(result, true)
-    }
-    else if this_job.borrow().background {
-        let id = this_job.borrow().job_id;
-        match result {
-            WaitStatus::Signaled(_, _, _) => Some(format!("Job [{}] ({}) terminated by signal", id, pid)),
-            WaitStatus::Stopped(_, _) => Some(format!("Job [{}] ({}) stopped by signal", id, pid)),
-            _ => None,
-        }
-    }
-    else {
-        None
-    };
-
     {
         let mut this_job = this_job.borrow_mut();
         match result {
@@ -506,6 +491,21 @@ fn wait_one(block: usize, job: &Option<Rc<RefCell<Job>>>) -> Result<Option<Pid>,
         this_job.changed = true;
     }
 
+    let message = if job.as_ref().map_or(false, |job| *job.borrow() == *this_job.borrow()) {
+        format_status(result, true)
+    }
+    else if this_job.borrow().background {
+        let id = this_job.borrow().job_id;
+        match result {
+            WaitStatus::Signaled(_, _, _) => Some(format!("Job [{}] ({}) terminated by signal", id, pid)),
+            WaitStatus::Stopped(_, _) => Some(format!("Job [{}] ({}) stopped by signal", id, pid)),
+            _ => None,
+        }
+    }
+    else {
+        None
+    };
+
     if let Some(message) = message {
         outln!("{}", message);
     }
-- 
2.43.0


From 1809685ff47024924c8fa4eecd19ab0f458ce82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:08 +0000
Subject: [PATCH 07/15] fix: an alias's words come before the words of the line

---
 src/ast.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index ae1a630..d354f7d 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -264,7 +264,8 @@ impl SimpleCommand {
                 self.name = name;
                 match &mut self.suffix {
                     Some(suffix) => {
-                        suffix.word.append(&mut args);
+                        args.append(&mut suffix.word);
+                        suffix.word = args;
                     }
                     None => {
                         self.suffix = Some(Suffix {
-- 
2.43.0


From d9a3dc051486afea84e0b29cc9c771a4c742c7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:32 +0000
Subject: [PATCH 08/15] fix: report jobs only from the interactive shell, not
 into captured or scripted output

---
 src/eval.rs | 4 +++-
 src/jobs.rs | 8 +++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 8258cae..0120da4 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -272,7 +272,9 @@ fn run_job(processes: Vec<Process>, mut commands: Vec<Command>, background: bool
     }
 
     if background {
-        outln!("[{}] ({}) {}", job.borrow().job_id, job.borrow().processes[0].pid, job.borrow());
+        if jobs::reports_jobs() {
+            outln!("[{}] ({}) {}", job.borrow().job_id, job.borrow().processes[0].pid, job.borrow());
+        }
         return if failure.is_some() { 1 } else { 0 };
     }
 
diff --git a/src/jobs.rs b/src/jobs.rs
index 01cbf55..b7d6636 100644
--- a/src/jobs.rs
+++ b/src/jobs.rs
@@ -430,6 +430,12 @@ pub fn wait_for_job(job: Option<Rc<RefCell<Job>>>) -> WaitStatus {
     status
 }
 
+/// This function checks if what happens to jobs is reported. Only the interactive shell itself does that,
+/// the output of scripts and of the shell's children belongs to their commands.
+pub fn reports_jobs() -> bool {
+    shell::is_interactive() && !shell::get_forked()
+}
+
 /// This function turns the status of a process into an exit code.
 pub fn exit_code(status: WaitStatus) -> i32 {
     match status {
@@ -506,7 +512,7 @@ fn wait_one(block: usize, job: &Option<Rc<RefCell<Job>>>) -> Result<Option<Pid>,
         None
     };
 
-    if let Some(message) = message {
+    if let Some(message) = message.filter(|_| reports_jobs()) {
         outln!("{}", message);
     }
 
-- 
2.43.0


From 4c207b6bc79c24b9162ddf9a420f2b4581809ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:51 +0000
Subject: [PATCH 09/15] fix: reject input nested too deeply instead of
 overflowing the stack

---
 src/lexer.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index a84a7ba..5d80e00 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -10,8 +10,12 @@ pub type Span<T, E> = Result<(usize, T, usize), E>;
 pub enum Error {
     UnrecognizedChar(usize, char, usize),
     Unterminated(usize, char),
+    TooDeep(usize),
 }
 
+/// Braces may nest this deep; deeper programs would overflow the stack when walked.
+const MAX_NESTING: usize = 500;
+
 impl Display for Error {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
         match self {
@@ -21,6 +25,9 @@ impl Display for Error {
             Error::Unterminated(start, chr) => {
                 write!(f, "Missing end of '{}' at position {}", chr, start)
             }
+            Error::TooDeep(start) => {
+                write!(f, "Nested too deeply at position {}", start)
+            }
         }
     }
 }
@@ -131,6 +138,7 @@ pub struct Lexer<'input> {
     chars: CharIndices<'input>,
     lookahead: Option<(usize, char, usize)>,
                     //size, char, end postion
+    nesting: usize,
 }
 
 impl<'input> Lexer<'input> {
@@ -143,6 +151,7 @@ impl<'input> Lexer<'input> {
             input,
             chars,
             lookahead,
+            nesting: 0,
         }
     }
 }
@@ -201,8 +210,18 @@ impl<'input> Iterator for Lexer<'input> {
                 },
                 '(' => Some(Ok((start, Token::OpenParen, end))),
                 ')' => Some(Ok((start, Token::CloseParen, end))),
-                '{' => Some(Ok((start, Token::OpenBrace, end))),
-                '}' => Some(Ok((start, Token::CloseBrace, end))),
+                '{' => {
+                    self.nesting += 1;
+                    if self.nesting > MAX_NESTING {
+                        Some(Err(Error::TooDeep(start)))
+                    } else {
+                        Some(Ok((start, Token::OpenBrace, end)))
+                    }
+                },
+                '}' => {
+                    self.nesting = self.nesting.saturating_sub(1);
+                    Some(Ok((start, Token::CloseBrace, end)))
+                },
                 '>' => {
                     match self.lookahead {
                         Some((_, '>', _)) => {
-- 
2.43.0


From 063fa5f41ec41d976791778d1f403ce9847e1b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:59 +0000
Subject: [PATCH 10/15] fix: a stopped job that is continued from outside is a
 background job

---
 src/jobs.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/jobs.rs b/src/jobs.rs
index b7d6636..9b425f8 100644
--- a/src/jobs.rs
+++ b/src/jobs.rs
@@ -481,6 +481,8 @@ fn wait_one(block: usize, job: &Option<Rc<RefCell<Job>>>) -> Result<Option<Pid>,
         None => return Ok(Some(pid)),
     };
 
+    let awaited = job.as_ref().map_or(false, |job| *job.borrow() == *this_job.borrow());
+
     {
         let mut this_job = this_job.borrow_mut();
         match result {
@@ -490,6 +492,10 @@ fn wait_one(block: usize, job: &Option<Rc<RefCell<Job>>>) -> Result<Option<Pid>,
                         process.status = None;
                     }
                 }
+                // a job that goes on while the shell does not wait for it is in the background
+                if !awaited {
+                    this_job.background = true;
+                }
             },
             status => this_job.set_process_status(pid, status),
         }
@@ -497,7 +503,7 @@ fn wait_one(block: usize, job: &Option<Rc<RefCell<Job>>>) -> Result<Option<Pid>,
         this_job.changed = true;
     }
 
-    let message = if job.as_ref().map_or(false, |job| *job.borrow() == *this_job.borrow()) {
+    let message = if awaited {
         format_status(result, true)
     }
     else if this_job.borrow().background {
-- 
2.43.0


From 842263aa26da7e85e6ab67e90475d9acc0672e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:51 +0000
Subject: [PATCH 11/15] fix: what is reported about jobs does not go into the
 redirected output of a command

---
 src/eval.rs | 12 ++++++++++--
 src/jobs.rs | 40 +++++++++++++++++++++++++++++++++++++++-
 2 files changed, 49 insertions(+), 3 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 0120da4..eaa6b32 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -15,7 +15,6 @@ use std::io::Write;
 use std::env;
 use std::sync::atomic::{AtomicBool, AtomicI32, AtomicUsize, Ordering};
 use crate::errln;
-use crate::outln;
 
 use std::os::unix::io::RawFd;
 use nix::unistd::{close, dup2, pipe,execv, fork, getpid, setpgid, ForkResult, Pid};
@@ -273,7 +272,7 @@ fn run_job(processes: Vec<Process>, mut commands: Vec<Command>, background: bool
 
     if background {
         if jobs::reports_jobs() {
-            outln!("[{}] ({}) {}", job.borrow().job_id, job.borrow().processes[0].pid, job.borrow());
+            jobs::report(format!("[{}] ({}) {}", job.borrow().job_id, job.borrow().processes[0].pid, job.borrow()));
         }
         return if failure.is_some() { 1 } else { 0 };
     }
@@ -306,9 +305,15 @@ fn run_in_child(command: &mut Command, process: &mut Process) -> i32 {
 /// Its redirections are undone afterwards.
 fn run_in_shell(command: &mut Command) -> i32 {
     let mut saved = Vec::new();
+    let mut held = false;
     let redirected = match command {
         Command::SimpleCommand(simple_command) => {
             let (prefix, suffix) = simple_command.prefix_suffix();
+            held = prefix.map_or(false, |prefix| !prefix.io_redirect.is_empty())
+                || suffix.map_or(false, |suffix| !suffix.io_redirect.is_empty());
+            if held {
+                jobs::hold_reports();
+            }
             eval_redirects(prefix, suffix, &mut saved)
         },
         _ => Ok(()),
@@ -332,6 +337,9 @@ fn run_in_shell(command: &mut Command) -> i32 {
             }
         }
     }
+    if held {
+        jobs::release_reports();
+    }
     status
 }
 
diff --git a/src/jobs.rs b/src/jobs.rs
index 9b425f8..d77efef 100644
--- a/src/jobs.rs
+++ b/src/jobs.rs
@@ -436,6 +436,44 @@ pub fn reports_jobs() -> bool {
     shell::is_interactive() && !shell::get_forked()
 }
 
+thread_local! {
+    /// How many commands of the shell are being run with redirections, and what is to be reported after them.
+    static HELD_REPORTS: RefCell<(usize, Vec<String>)> = RefCell::new((0, Vec::new()));
+}
+
+/// This function prints a message about a job. While the outputs of the shell are redirected for one of its
+/// own commands they belong to that command and the message has to wait.
+pub fn report(message: String) {
+    let now = HELD_REPORTS.with(|held| {
+        let mut held = held.borrow_mut();
+        if held.0 == 0 {
+            return Some(message);
+        }
+        held.1.push(message);
+        None
+    });
+    if let Some(message) = now {
+        outln!("{}", message);
+    }
+}
+
+/// This function gets called before the outputs of the shell are redirected.
+pub fn hold_reports() {
+    HELD_REPORTS.with(|held| held.borrow_mut().0 += 1);
+}
+
+/// This function gets called after redirections were undone.
+pub fn release_reports() {
+    let messages = HELD_REPORTS.with(|held| {
+        let mut held = held.borrow_mut();
+        held.0 -= 1;
+        if held.0 == 0 { std::mem::take(&mut held.1) } else { Vec::new() }
+    });
+    for message in messages {
+        outln!("{}", message);
+    }
+}
+
 /// This function turns the status of a process into an exit code.
 pub fn exit_code(status: WaitStatus) -> i32 {
     match status {
@@ -519,7 +557,7 @@ fn wait_one(block: usize, job: &Option<Rc<RefCell<Job>>>) -> Result<Option<Pid>,
     };
 
     if let Some(message) = message.filter(|_| reports_jobs()) {
-        outln!("{}", message);
+        report(message);
     }
 
     if this_job.borrow().state == JobState::Stopped {
-- 
2.43.0


From d098168140bf8a5e5aa0af88ebeeed31526c23ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:05 +0000
Subject: [PATCH 12/15] fix: a descriptor that cannot be saved is not one that
 was closed

---
 src/eval.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/eval.rs b/src/eval.rs
index eaa6b32..4ae79f2 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -506,7 +506,17 @@ fn eval_redirect(redirect: &Vec<IoRedirect>, saved: &mut Vec<(RawFd,Option<RawFd
             let fd = redir.io_number.unwrap_or(default_fd);
             let error = |e: &dyn std::fmt::Display| format!("{}: {}", io_file.filename, e);
 
-            let copy = fcntl(fd, FcntlArg::F_DUPFD_CLOEXEC(100)).ok();
+            // a limit on descriptors can leave none of those that scripts do not use
+            let copy = match fcntl(fd, FcntlArg::F_DUPFD_CLOEXEC(100)) {
+                Err(Errno::EINVAL) => fcntl(fd, FcntlArg::F_DUPFD_CLOEXEC(3)),
+                copy => copy,
+            };
+            let copy = match copy {
+                Ok(copy) => Some(copy),
+                // nothing is open there
+                Err(Errno::EBADF) => None,
+                Err(e) => return Err(error(&e)),
+            };
             let file = match options.open(&io_file.filename) {
                 Ok(file) => file,
                 Err(e) => {
-- 
2.43.0


From 45bf86885329ab72dc7ebdc7c77c1bc614d01365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:17 +0000
Subject: [PATCH 13/15] fix: only digits make a word in front of a redirection
 a descriptor number

---
 src/lexer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 5d80e00..92c961a 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -425,8 +425,9 @@ impl<'input> Lexer<'input> {
         if let Some((_,chr,_)) = self.lookahead {
             if chr == '<' || chr == '>' {
                 match word.parse::<i32>() {
-                    Ok(num) => return Token::Number(num),
-                    Err(_) => return Token::Word(word),
+                    // (parse takes a sign, too)
+                    Ok(num) if word.bytes().all(|byte| byte.is_ascii_digit()) => return Token::Number(num),
+                    _ => return Token::Word(word),
                 }
             }
         }
-- 
2.43.0


From 5ad9c5ebc0daba40aa6e2ab796f8e6637dcf4ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:50 +0000
Subject: [PATCH 14/15] fix: restore a redirected descriptor with its
 close-on-exec flag

---
 src/eval.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 4ae79f2..08906f4 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -328,8 +328,9 @@ fn run_in_shell(command: &mut Command) -> i32 {
     let _ = std::io::stdout().flush();
     for (fd, copy) in saved.into_iter().rev() {
         match copy {
-            Some(copy) => {
+            Some((copy, flags)) => {
                 let _ = dup2(copy, fd);
+                let _ = fcntl(fd, FcntlArg::F_SETFD(flags));
                 let _ = close(copy);
             },
             None => {
@@ -451,7 +452,7 @@ fn eval_simple_command(simple_command: &mut SimpleCommand) -> Result<(Process, C
 }
 
 /// This function evaluates a SimpleCommand's Prefix and Suffix.
-fn eval_prefix_suffix(prefix_suffix: (Option<&Prefix>, Option<&Suffix>), saved: &mut Vec<(RawFd,Option<RawFd>)>) -> Result<(),String> {
+fn eval_prefix_suffix(prefix_suffix: (Option<&Prefix>, Option<&Suffix>), saved: &mut Vec<(RawFd,Option<(RawFd,FdFlag)>)>) -> Result<(),String> {
     let (prefix, suffix) = prefix_suffix;
     eval_redirects(prefix, suffix, saved)?;
     if prefix.is_some() {
@@ -461,7 +462,7 @@ fn eval_prefix_suffix(prefix_suffix: (Option<&Prefix>, Option<&Suffix>), saved:
 }
 
 /// This function evaluates the redirections of a SimpleCommand from left to right.
-fn eval_redirects(prefix: Option<&Prefix>, suffix: Option<&Suffix>, saved: &mut Vec<(RawFd,Option<RawFd>)>) -> Result<(),String> {
+fn eval_redirects(prefix: Option<&Prefix>, suffix: Option<&Suffix>, saved: &mut Vec<(RawFd,Option<(RawFd,FdFlag)>)>) -> Result<(),String> {
     if prefix.is_some() {
         eval_redirect(&prefix.unwrap().io_redirect, saved)?;
     }
@@ -482,7 +483,7 @@ fn eval_assignment(assignment: &Vec<String>) {
 
 /// This function evaluates an IoRedirect in a SimpleCommand's Prefix or Suffix.
 /// What the redirected descriptors were before is put into 'saved'.
-fn eval_redirect(redirect: &Vec<IoRedirect>, saved: &mut Vec<(RawFd,Option<RawFd>)>) -> Result<(),String> {
+fn eval_redirect(redirect: &Vec<IoRedirect>, saved: &mut Vec<(RawFd,Option<(RawFd,FdFlag)>)>) -> Result<(),String> {
     for redir in redirect.iter() {
         if redir.io_file.is_some() {
             let io_file = redir.io_file.as_ref().unwrap();
@@ -506,6 +507,8 @@ fn eval_redirect(redirect: &Vec<IoRedirect>, saved: &mut Vec<(RawFd,Option<RawFd
             let fd = redir.io_number.unwrap_or(default_fd);
             let error = |e: &dyn std::fmt::Display| format!("{}: {}", io_file.filename, e);
 
+            // a descriptor of the shell's own, like that of a script, is not for the programs it runs
+            let flags = fcntl(fd, FcntlArg::F_GETFD).map_or(FdFlag::empty(), FdFlag::from_bits_truncate);
             // a limit on descriptors can leave none of those that scripts do not use
             let copy = match fcntl(fd, FcntlArg::F_DUPFD_CLOEXEC(100)) {
                 Err(Errno::EINVAL) => fcntl(fd, FcntlArg::F_DUPFD_CLOEXEC(3)),
@@ -526,7 +529,7 @@ fn eval_redirect(redirect: &Vec<IoRedirect>, saved: &mut Vec<(RawFd,Option<RawFd
                     return Err(error(&e));
                 }
             };
-            saved.push((fd, copy));
+            saved.push((fd, copy.map(|copy| (copy, flags))));
             let opened = file.into_raw_fd();
             if opened == fd {
                 // the file landed on the right descriptor, but it has to survive an exec
-- 
2.43.0


From 5ac6b96ac20ef2326309f69e32d243c9cc91b599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:40 +0000
Subject: [PATCH 15/15] fix: a name in a namespace is all that follows the
 first "::"

---
 Cargo.lock     | 946 +++++++++++++++++++++++++++++++++++++++++++++----
 src/context.rs |  20 +-
 2 files changed, 886 insertions(+), 80 deletions(-)

diff --git a/Cargo.lock b/Cargo.lock
index b98862d..6a0bd8a 100644
--- a/Cargo.lock
+++ b/Cargo.lock
@@ -1,6 +1,6 @@
 # This file is automatically @generated by Cargo.
 # It is not intended for manual editing.
-version = 3
+version = 4
 
 [[package]]
 name = "aho-corasick"
@@ -11,6 +11,21 @@ dependencies = [
  "memchr",
 ]
 
+[[package]]
+name = "android_system_properties"
+version = "0.1.6"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "ae221649c9976a6f6c56ae1facf410f3ddb33cc661c4b7b61020a912d4237fbc"
+dependencies = [
+ "libc",
+]
+
+[[package]]
+name = "arrayvec"
+version = "0.7.8"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "d3fb67a6e08acf24fdeccbac2cb6ac4305825bd1f117462e0e6f2f193345ad56"
+
 [[package]]
 name = "ascii-canvas"
 version = "3.0.0"
@@ -37,6 +52,12 @@ version = "1.1.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "d468802bab17cbc0cc575e9b053f41e72aa36bfa6b7f55e3529ffa43161b97fa"
 
+[[package]]
+name = "beef"
+version = "0.5.2"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "3a8241f3ebb85c056b509d4327ad0358fbbba6ffb340bf388f26350aeda225b1"
+
 [[package]]
 name = "bit-set"
 version = "0.5.3"
@@ -58,6 +79,18 @@ version = "1.3.2"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "bef38d45163c2f1dde094a7dfd33ccf595c92905c8f8f4fdc18d06fb1037718a"
 
+[[package]]
+name = "bitflags"
+version = "2.13.2"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "3ded4057c258ba199e2d26386d3af3780957ecaee6c4ef4041c6b4b8b97c0b06"
+
+[[package]]
+name = "bumpalo"
+version = "3.20.3"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "72f5acc6cb2ba439de613abc23857ec3d78374d8ed5ac84e9d11336e87da8649"
+
 [[package]]
 name = "cc"
 version = "1.0.79"
@@ -66,15 +99,33 @@ checksum = "50d30906286121d95be3d479533b458f87493b30a4b5f79a607db8f5d11aa91f"
 
 [[package]]
 name = "cfg-if"
-version = "0.1.10"
+version = "1.0.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "4785bdd1c96b2a846b2bd7cc02e86b6b3dbf14e7e53446c4f54c92a361040822"
+checksum = "baf1de4339761588bc0619e3cbc0120ee582ebb74b53b4efbf79117bd2da40fd"
 
 [[package]]
-name = "cfg-if"
-version = "1.0.0"
+name = "chrono"
+version = "0.4.45"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "baf1de4339761588bc0619e3cbc0120ee582ebb74b53b4efbf79117bd2da40fd"
+checksum = "1aa79e62e7697b8e29b513a68abacf485adcd1fe8284a4316c5ae868e6633327"
+dependencies = [
+ "iana-time-zone",
+ "js-sys",
+ "num-traits",
+ "wasm-bindgen",
+ "windows-link",
+]
+
+[[package]]
+name = "clipboard-win"
+version = "4.5.0"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "7191c27c2357d9b7ef96baac1773290d4ca63b24205b82a3fd8a0637afcf0362"
+dependencies = [
+ "error-code",
+ "str-buf",
+ "winapi",
+]
 
 [[package]]
 name = "const_fn"
@@ -82,6 +133,68 @@ version = "0.4.9"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "fbdcdcb6d86f71c5e97409ad45898af11cbc995b4ee8112d59095a28d376c935"
 
+[[package]]
+name = "core-foundation-sys"
+version = "0.8.7"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "773648b94d0e5d620f64f280777445740e61fe701025087ec8b57f45c791888b"
+
+[[package]]
+name = "crossbeam"
+version = "0.8.5"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "e71406cd8807725f7ac2f999a4cdd32e98f829fdf65f528343cebf945e41df1e"
+dependencies = [
+ "crossbeam-channel",
+ "crossbeam-deque",
+ "crossbeam-epoch",
+ "crossbeam-queue",
+ "crossbeam-utils",
+]
+
+[[package]]
+name = "crossbeam-channel"
+version = "0.5.17"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "98b0cc327b5bc766e7fda9c9260cc0fa81b43a8e240440422dff70788e3f9ef1"
+dependencies = [
+ "crossbeam-utils",
+]
+
+[[package]]
+name = "crossbeam-deque"
+version = "0.8.8"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "622f3fc73690be383c7214310406f28a90e6edeadc3cea882f9d71e495b9711a"
+dependencies = [
+ "crossbeam-epoch",
+ "crossbeam-utils",
+]
+
+[[package]]
+name = "crossbeam-epoch"
+version = "0.9.21"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "dc74980687109a3b14c72fd458107bf0baa1da1a1a805e178d15501ba9b86d9d"
+dependencies = [
+ "crossbeam-utils",
+]
+
+[[package]]
+name = "crossbeam-queue"
+version = "0.3.14"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "03e8bd762f7479489c70ed6c768ddca99d7296857de437a68dcb2a94365b3fae"
+dependencies = [
+ "crossbeam-utils",
+]
+
+[[package]]
+name = "crossbeam-utils"
+version = "0.8.23"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "a31eee39dddec8330830986fcd7625edb5a24ec90ea038215273bbc3adb08ac6"
+
 [[package]]
 name = "crunchy"
 version = "0.2.2"
@@ -89,40 +202,101 @@ source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "7a81dae078cea95a014a339291cec439d2f232ebe854a9d672b796c6afafa9b7"
 
 [[package]]
-name = "diff"
-version = "0.1.13"
+name = "darling"
+version = "0.14.4"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "56254986775e3233ffa9c4d7d3faaf6d36a2c09d30b20687e9f88bc8bafc16c8"
+checksum = "7b750cb3417fd1b327431a470f388520309479ab0bf5e323505daf0290cd3850"
+dependencies = [
+ "darling_core",
+ "darling_macro",
+]
 
 [[package]]
-name = "dirs"
-version = "2.0.2"
+name = "darling_core"
+version = "0.14.4"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "13aea89a5c93364a98e9b37b2fa237effbb694d5cfe01c5b70941f7eb087d5e3"
+checksum = "109c1ca6e6b7f82cc233a97004ea8ed7ca123a9af07a8230878fcfda9b158bf0"
 dependencies = [
- "cfg-if 0.1.10",
- "dirs-sys",
+ "fnv",
+ "ident_case",
+ "proc-macro2",
+ "quote",
+ "strsim",
+ "syn 1.0.109",
 ]
 
 [[package]]
-name = "dirs-next"
-version = "2.0.0"
+name = "darling_macro"
+version = "0.14.4"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "b98cf8ebf19c3d1b223e151f99a4f9f0690dca41414773390fc824184ac833e1"
+checksum = "a4aab4dbc9f7611d8b55048a3a16d2d010c2c8334e46304b40ac1cc14bf3b48e"
 dependencies = [
- "cfg-if 1.0.0",
- "dirs-sys-next",
+ "darling_core",
+ "quote",
+ "syn 1.0.109",
 ]
 
 [[package]]
-name = "dirs-sys"
-version = "0.3.7"
+name = "defer-drop"
+version = "1.3.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "1b1d1d91c932ef41c0f2663aa8b0ca0342d444d842c06914aa0a7e352d0bada6"
+checksum = "f613ec9fa66a6b28cdb1842b27f9adf24f39f9afc4dcdd9fdecee4aca7945c57"
 dependencies = [
- "libc",
- "redox_users",
- "winapi",
+ "crossbeam-channel",
+ "once_cell",
+]
+
+[[package]]
+name = "deranged"
+version = "0.5.9"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "9e9de72ce2ad1f90dc62fa25f0f430ef85eb4b0d8fa0be4f30373bc40a21d28e"
+
+[[package]]
+name = "derive_builder"
+version = "0.11.2"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "d07adf7be193b71cc36b193d0f5fe60b918a3a9db4dad0449f57bcfd519704a3"
+dependencies = [
+ "derive_builder_macro",
+]
+
+[[package]]
+name = "derive_builder_core"
+version = "0.11.2"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "1f91d4cfa921f1c05904dc3c57b4a32c38aed3340cce209f3a6fd1478babafc4"
+dependencies = [
+ "darling",
+ "proc-macro2",
+ "quote",
+ "syn 1.0.109",
+]
+
+[[package]]
+name = "derive_builder_macro"
+version = "0.11.2"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "8f0314b72bed045f3a68671b3c86328386762c93f82d98c65c3cb5e5f573dd68"
+dependencies = [
+ "derive_builder_core",
+ "syn 1.0.109",
+]
+
+[[package]]
+name = "diff"
+version = "0.1.13"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "56254986775e3233ffa9c4d7d3faaf6d36a2c09d30b20687e9f88bc8bafc16c8"
+
+[[package]]
+name = "dirs-next"
+version = "2.0.0"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "b98cf8ebf19c3d1b223e151f99a4f9f0690dca41414773390fc824184ac833e1"
+dependencies = [
+ "cfg-if",
+ "dirs-sys-next",
 ]
 
 [[package]]
@@ -151,25 +325,101 @@ dependencies = [
  "log",
 ]
 
+[[package]]
+name = "endian-type"
+version = "0.1.2"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "c34f04666d835ff5d62e058c3995147c06f42fe86ff053337632bca83e42702d"
+
+[[package]]
+name = "errno"
+version = "0.3.14"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "39cab71617ae0d63f51a36d69f866391735b51691dbda63cf6f96d042b63efeb"
+dependencies = [
+ "libc",
+ "windows-sys 0.61.2",
+]
+
+[[package]]
+name = "error-code"
+version = "2.3.1"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "64f18991e7bf11e7ffee451b5318b5c1a73c52d0d0ada6e5a3017c8c1ced6a21"
+dependencies = [
+ "libc",
+ "str-buf",
+]
+
+[[package]]
+name = "fd-lock"
+version = "3.0.13"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "ef033ed5e9bad94e55838ca0ca906db0e043f517adda0c8b79c7a8c66c93c1b5"
+dependencies = [
+ "cfg-if",
+ "rustix",
+ "windows-sys 0.48.0",
+]
+
 [[package]]
 name = "fixedbitset"
 version = "0.4.2"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "0ce7134b9999ecaf8bcd65542e436736ef32ddca1b3e06094cb6ec5755203b80"
 
+[[package]]
+name = "fnv"
+version = "1.0.7"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "3f9eec918d3f24069decb9af1554cad7c880e2da24a9afd88aca000531ab82c1"
+
 [[package]]
 name = "fragile"
 version = "2.0.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "6c2141d6d6c8512188a7891b4b01590a45f6dac67afb4f255c4124dbb86d4eaa"
 
+[[package]]
+name = "futures-core"
+version = "0.3.34"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "92d699e522242e69e3003b94ecc1f960f3a5e015aa7c5d7486e65ad01dd94f5e"
+
+[[package]]
+name = "futures-task"
+version = "0.3.34"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "cd417de3d1d015fc3bfd2b1ea46dfc7bab72ef86f1cc7cc9c78e728b34a6d1fd"
+
+[[package]]
+name = "futures-util"
+version = "0.3.34"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "0d50a92467f8ba5dd6e3ee5d4bd04d73ab2e4e1c44474a0674821dfce14b79bc"
+dependencies = [
+ "futures-core",
+ "futures-task",
+ "pin-project-lite",
+ "slab",
+]
+
+[[package]]
+name = "fuzzy-matcher"
+version = "0.3.7"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "54614a3312934d066701a80f20f15fa3b56d67ac7722b39eea5b4c9dd1d66c94"
+dependencies = [
+ "thread_local",
+]
+
 [[package]]
 name = "getrandom"
 version = "0.2.8"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "c05aeb6a22b8f62540c194aac980f2115af067bfe15a0734d7277a768d396b31"
 dependencies = [
- "cfg-if 1.0.0",
+ "cfg-if",
  "libc",
  "wasi",
 ]
@@ -189,6 +439,36 @@ dependencies = [
  "libc",
 ]
 
+[[package]]
+name = "iana-time-zone"
+version = "0.1.65"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "e31bc9ad994ba00e440a8aa5c9ef0ec67d5cb5e5cb0cc7f8b744a35b389cc470"
+dependencies = [
+ "android_system_properties",
+ "core-foundation-sys",
+ "iana-time-zone-haiku",
+ "js-sys",
+ "log",
+ "wasm-bindgen",
+ "windows-core",
+]
+
+[[package]]
+name = "iana-time-zone-haiku"
+version = "0.1.2"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "f31827a206f56af32e590ba56d5d2d085f558508192593743f16b2306495269f"
+dependencies = [
+ "cc",
+]
+
+[[package]]
+name = "ident_case"
+version = "1.0.1"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "b9e0384b61958566e926dc50660321d12159025e767c18e043daf26b70104c39"
+
 [[package]]
 name = "indexmap"
 version = "1.9.2"
@@ -208,6 +488,17 @@ dependencies = [
  "either",
 ]
 
+[[package]]
+name = "js-sys"
+version = "0.3.107"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "8dc09d2154098bbf4ef54eab6b117a3c24cbbffe94046b16ee6d6d4510584d3a"
+dependencies = [
+ "cfg-if",
+ "futures-util",
+ "wasm-bindgen",
+]
+
 [[package]]
 name = "lalrpop"
 version = "0.19.8"
@@ -248,9 +539,9 @@ checksum = "e2abad23fbc42b3700f2f279844dc832adb2b2eb069b2df918f455c4e18cc646"
 
 [[package]]
 name = "libc"
-version = "0.2.139"
+version = "0.2.191"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "201de327520df007757c1f0adce6e827fe8562fbc28bfd9c15571c66ca1f5f79"
+checksum = "65cd87c9a6d60536580b316ad985726104730a5151c99845f2490428ef91240a"
 
 [[package]]
 name = "likely_stable"
@@ -262,6 +553,12 @@ dependencies = [
  "rustc_version",
 ]
 
+[[package]]
+name = "linux-raw-sys"
+version = "0.4.15"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "d26c52dbd32dccf2d10cac7725f8eae5296885fb5703b261f7d0a0739ec807ab"
+
 [[package]]
 name = "lock_api"
 version = "0.4.9"
@@ -278,7 +575,7 @@ version = "0.4.17"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "abb12e687cfb44aa40f41fc3978ef76448f9b6038cad6aef4259d3c095a2382e"
 dependencies = [
- "cfg-if 1.0.0",
+ "cfg-if",
 ]
 
 [[package]]
@@ -287,6 +584,15 @@ version = "2.5.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "2dffe52ecf27772e601905b7522cb4ef790d2cc203488bbd0e2fe85fcb74566d"
 
+[[package]]
+name = "memoffset"
+version = "0.6.5"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "5aa361d4faea93603064a027415f07bd8e1d5c88c9fbf68bf56a285428fd79ce"
+dependencies = [
+ "autocfg",
+]
+
 [[package]]
 name = "memoffset"
 version = "0.7.1"
@@ -302,17 +608,38 @@ version = "1.0.4"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "e4a24736216ec316047a1fc4252e27dabb04218aa4a3f37c6e7ddbf1f9782b54"
 
+[[package]]
+name = "nibble_vec"
+version = "0.1.0"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "77a5d83df9f36fe23f0c3648c6bbb8b0298bb5f1939c8f2704431371f4b84d43"
+dependencies = [
+ "smallvec",
+]
+
 [[package]]
 name = "nix"
-version = "0.14.1"
+version = "0.24.3"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "6c722bee1037d430d0f8e687bbdbf222f27cc6e4e68d5caf630857bb2b6dbdce"
+checksum = "fa52e972a9a719cecb6864fb88568781eb706bac2cd1d4f04a648542dbf78069"
 dependencies = [
- "bitflags",
- "cc",
- "cfg-if 0.1.10",
+ "bitflags 1.3.2",
+ "cfg-if",
  "libc",
- "void",
+]
+
+[[package]]
+name = "nix"
+version = "0.25.1"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "f346ff70e7dbfd675fe90590b92d59ef2de15a8779ae305ebcbfd3f0caf59be4"
+dependencies = [
+ "autocfg",
+ "bitflags 1.3.2",
+ "cfg-if",
+ "libc",
+ "memoffset 0.6.5",
+ "pin-utils",
 ]
 
 [[package]]
@@ -321,14 +648,29 @@ version = "0.26.2"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "bfdda3d196821d6af13126e40375cdf7da646a96114af134d5f417a9a1dc8e1a"
 dependencies = [
- "bitflags",
- "cfg-if 1.0.0",
+ "bitflags 1.3.2",
+ "cfg-if",
  "libc",
- "memoffset",
+ "memoffset 0.7.1",
  "pin-utils",
  "static_assertions",
 ]
 
+[[package]]
+name = "num-conv"
+version = "0.2.2"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "521739c6d2bac4aa25192232afe6841231376b2b26d4d9fae5ecf8ca5772e441"
+
+[[package]]
+name = "num-traits"
+version = "0.2.19"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "071dfc062690e90b734c0b2273ce72ad0ffa95f0c74596bc250dcfd960262841"
+dependencies = [
+ "autocfg",
+]
+
 [[package]]
 name = "once_cell"
 version = "1.17.1"
@@ -351,11 +693,11 @@ version = "0.9.7"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "9069cbb9f99e3a5083476ccb29ceb1de18b9118cafa53e90c9551235de2b9521"
 dependencies = [
- "cfg-if 1.0.0",
+ "cfg-if",
  "libc",
  "redox_syscall",
  "smallvec",
- "windows-sys",
+ "windows-sys 0.45.0",
 ]
 
 [[package]]
@@ -393,12 +735,24 @@ version = "0.4.2"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "db8bcd96cb740d03149cbad5518db9fd87126a10ab519c011893b1754134c468"
 
+[[package]]
+name = "pin-project-lite"
+version = "0.2.17"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "a89322df9ebe1c1578d689c92318e070967d1042b512afbe49518723f4e6d5cd"
+
 [[package]]
 name = "pin-utils"
 version = "0.1.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "8b870d8c151b6f2fb93e84a13146138f05d02ed11c7e7c54f8826aaaf7c9f184"
 
+[[package]]
+name = "powerfmt"
+version = "0.2.1"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "4a6394b9e965e73d0a289ee54f589087e2c676aedf60885baf52c76b771e4958"
+
 [[package]]
 name = "precomputed-hash"
 version = "0.1.1"
@@ -407,29 +761,59 @@ checksum = "925383efa346730478fb4838dbe9137d2a47675ad789c546d150a6e1dd4ab31c"
 
 [[package]]
 name = "proc-macro2"
-version = "1.0.51"
+version = "1.0.107"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "5d727cae5b39d21da60fa540906919ad737832fe0b1c165da3a34d6548c849d6"
+checksum = "985e7ec9bb745e6ce6535b544d84d6cd6f7ad8bd711c398938ae983b91a766d9"
 dependencies = [
  "unicode-ident",
 ]
 
 [[package]]
 name = "quote"
-version = "1.0.23"
+version = "1.0.47"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "8856d8364d252a14d474036ea1358d63c9e6965c8e5c1885c18f73d70bff9c7b"
+checksum = "1fbf4db142a473a8d80c26bbf18454ed458bf8d26c8219c331daecfdbd079001"
 dependencies = [
  "proc-macro2",
 ]
 
+[[package]]
+name = "radix_trie"
+version = "0.2.1"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "c069c179fcdc6a2fe24d8d18305cf085fdbd4f922c041943e203685d6a1c58fd"
+dependencies = [
+ "endian-type",
+ "nibble_vec",
+]
+
+[[package]]
+name = "rayon"
+version = "1.12.0"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "fb39b166781f92d482534ef4b4b1b2568f42613b53e5b6c160e24cfbfa30926d"
+dependencies = [
+ "either",
+ "rayon-core",
+]
+
+[[package]]
+name = "rayon-core"
+version = "1.13.0"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "22e18b0f0062d30d4230b2e85ff77fdfe4326feb054b9783a3460d8435c8ab91"
+dependencies = [
+ "crossbeam-deque",
+ "crossbeam-utils",
+]
+
 [[package]]
 name = "redox_syscall"
 version = "0.2.16"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "fb5a58c1855b4b6819d59012155603f0b22ad30cad752600aadfcb695265519a"
 dependencies = [
- "bitflags",
+ "bitflags 1.3.2",
 ]
 
 [[package]]
@@ -468,6 +852,7 @@ dependencies = [
  "lalrpop",
  "lalrpop-util",
  "lazy_static",
+ "libc",
  "likely_stable",
  "nix 0.26.2",
  "regex",
@@ -484,6 +869,19 @@ dependencies = [
  "semver",
 ]
 
+[[package]]
+name = "rustix"
+version = "0.38.44"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "fdb5bc1ae2baa591800df16c9ca78619bf65c0488b41b96ccec5d11220d8c154"
+dependencies = [
+ "bitflags 2.13.2",
+ "errno",
+ "libc",
+ "linux-raw-sys",
+ "windows-sys 0.59.0",
+]
+
 [[package]]
 name = "rustversion"
 version = "1.0.11"
@@ -492,22 +890,40 @@ checksum = "5583e89e108996506031660fe09baa5011b9dd0341b89029313006d1fb508d70"
 
 [[package]]
 name = "rustyline"
-version = "5.0.6"
+version = "11.0.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "a23cb19702a8d6afb6edb3c842386e680d4883760e0df74e6848e23c2a87a635"
+checksum = "5dfc8644681285d1fb67a467fb3021bfea306b99b4146b166a1fe3ada965eece"
 dependencies = [
- "cfg-if 0.1.10",
- "dirs",
+ "bitflags 1.3.2",
+ "cfg-if",
+ "clipboard-win",
+ "dirs-next",
+ "fd-lock",
  "libc",
  "log",
  "memchr",
- "nix 0.14.1",
+ "nix 0.26.2",
+ "radix_trie",
+ "rustyline-derive",
+ "scopeguard",
+ "skim",
  "unicode-segmentation",
  "unicode-width",
  "utf8parse",
  "winapi",
 ]
 
+[[package]]
+name = "rustyline-derive"
+version = "0.8.0"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "8218eaf5d960e3c478a1b0f129fa888dd3d8d22eb3de097e9af14c1ab4438024"
+dependencies = [
+ "proc-macro2",
+ "quote",
+ "syn 1.0.109",
+]
+
 [[package]]
 name = "scopeguard"
 version = "1.1.0"
@@ -532,6 +948,26 @@ dependencies = [
  "pest",
 ]
 
+[[package]]
+name = "serde_core"
+version = "1.0.229"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "67dca2c9c51e58a4791a4b1ed58308b39c64224d349a935ab5039aa360942a48"
+dependencies = [
+ "serde_derive",
+]
+
+[[package]]
+name = "serde_derive"
+version = "1.0.229"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "e7a5d71263a5a7d47b41f6b3f06ba276f10cc18b0931f1799f710578e2309348"
+dependencies = [
+ "proc-macro2",
+ "quote",
+ "syn 3.0.9",
+]
+
 [[package]]
 name = "signal-hook"
 version = "0.3.15"
@@ -557,6 +993,37 @@ version = "0.3.10"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "7bd3e3206899af3f8b12af284fafc038cc1dc2b41d1b89dd17297221c5d225de"
 
+[[package]]
+name = "skim"
+version = "0.10.4"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "e5d28de0a6cb2cdd83a076f1de9d965b973ae08b244df1aa70b432946dda0f32"
+dependencies = [
+ "beef",
+ "bitflags 1.3.2",
+ "chrono",
+ "crossbeam",
+ "defer-drop",
+ "derive_builder",
+ "fuzzy-matcher",
+ "lazy_static",
+ "log",
+ "nix 0.25.1",
+ "rayon",
+ "regex",
+ "time",
+ "timer",
+ "tuikit",
+ "unicode-width",
+ "vte",
+]
+
+[[package]]
+name = "slab"
+version = "0.4.12"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "0c790de23124f9ab44544d7ac05d60440adc586479ce501c1d6d7da3cd8c9cf5"
+
 [[package]]
 name = "smallvec"
 version = "1.10.0"
@@ -569,6 +1036,12 @@ version = "1.1.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "a2eb9349b6444b326872e140eb1cf5e7c522154d69e7a0ffb0fb81c06b37543f"
 
+[[package]]
+name = "str-buf"
+version = "1.0.6"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "9e08d8363704e6c71fc928674353e6b7c23dcea9d82d7012c8faf2a3a025f8d0"
+
 [[package]]
 name = "string_cache"
 version = "0.8.6"
@@ -582,6 +1055,12 @@ dependencies = [
  "precomputed-hash",
 ]
 
+[[package]]
+name = "strsim"
+version = "0.10.0"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "73473c0e59e6d5812c5dfe2a064a6444949f089e20eec9a2e5506596494e4623"
+
 [[package]]
 name = "syn"
 version = "1.0.109"
@@ -593,6 +1072,28 @@ dependencies = [
  "unicode-ident",
 ]
 
+[[package]]
+name = "syn"
+version = "2.0.119"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "872831b642d1a07999a962a351ed35b955ea2cfc8f3862091e2a240a84f17297"
+dependencies = [
+ "proc-macro2",
+ "quote",
+ "unicode-ident",
+]
+
+[[package]]
+name = "syn"
+version = "3.0.9"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "d78c8dee4c7bf0e14673097256fed6142ce9d3b85a408189d07482442145823b"
+dependencies = [
+ "proc-macro2",
+ "quote",
+ "unicode-ident",
+]
+
 [[package]]
 name = "term"
 version = "0.7.0"
@@ -621,7 +1122,44 @@ checksum = "1fb327af4685e4d03fa8cbcf1716380da910eeb2bb8be417e7f9fd3fb164f36f"
 dependencies = [
  "proc-macro2",
  "quote",
- "syn",
+ "syn 1.0.109",
+]
+
+[[package]]
+name = "thread_local"
+version = "1.1.10"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "1ad99c4c6d32803332c548b1af0540b357b3f5fc0be8f6c6bfe8b2e6ae784070"
+dependencies = [
+ "cfg-if",
+]
+
+[[package]]
+name = "time"
+version = "0.3.55"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "cdb87b95ec50ddfa440816d227a17b2ccbdda963a316a727fda0fc4334f7d134"
+dependencies = [
+ "deranged",
+ "num-conv",
+ "powerfmt",
+ "serde_core",
+ "time-core",
+]
+
+[[package]]
+name = "time-core"
+version = "0.1.9"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "9e1c906769ad99c88eaa54e728060edef082f8e358ff32030cb7c7d315e81109"
+
+[[package]]
+name = "timer"
+version = "0.2.0"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "31d42176308937165701f50638db1c31586f183f1aab416268216577aec7306b"
+dependencies = [
+ "chrono",
 ]
 
 [[package]]
@@ -633,6 +1171,20 @@ dependencies = [
  "crunchy",
 ]
 
+[[package]]
+name = "tuikit"
+version = "0.5.0"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "5e19c6ab038babee3d50c8c12ff8b910bdb2196f62278776422f50390d8e53d8"
+dependencies = [
+ "bitflags 1.3.2",
+ "lazy_static",
+ "log",
+ "nix 0.24.3",
+ "term",
+ "unicode-width",
+]
+
 [[package]]
 name = "ucd-trie"
 version = "0.1.5"
@@ -665,15 +1217,30 @@ checksum = "f962df74c8c05a667b5ee8bcf162993134c104e96440b663c8daa176dc772d8c"
 
 [[package]]
 name = "utf8parse"
-version = "0.1.1"
+version = "0.2.2"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "8772a4ccbb4e89959023bc5b7cb8623a795caa7092d99f3aa9501b9484d4557d"
+checksum = "06abde3611657adf66d383f00b093d7faecc7fa57071cce2578660c9f1010821"
 
 [[package]]
-name = "void"
-version = "1.0.2"
+name = "vte"
+version = "0.11.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "6a02e4885ed3bc0f2de90ea6dd45ebcbb66dacffe03547fadbb0eeae2770887d"
+checksum = "f5022b5fbf9407086c180e9557be968742d839e68346af7792b8592489732197"
+dependencies = [
+ "arrayvec",
+ "utf8parse",
+ "vte_generate_state_changes",
+]
+
+[[package]]
+name = "vte_generate_state_changes"
+version = "0.1.2"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "2e369bee1b05d510a7b4ed645f5faa90619e05437111783ea5848f28d97d3c2e"
+dependencies = [
+ "proc-macro2",
+ "quote",
+]
 
 [[package]]
 name = "wasi"
@@ -681,6 +1248,50 @@ version = "0.11.0+wasi-snapshot-preview1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "9c8d87e72b64a3b4db28d11ce29237c246188f4f51057d65a7eab63b7987e423"
 
+[[package]]
+name = "wasm-bindgen"
+version = "0.2.130"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "a0181c14ddd6c7b8b0b0132a5f1ea2f32be0d893cd3ea97b6e3b28886b8a3d1c"
+dependencies = [
+ "cfg-if",
+ "rustversion",
+ "wasm-bindgen-macro",
+ "wasm-bindgen-shared",
+]
+
+[[package]]
+name = "wasm-bindgen-macro"
+version = "0.2.130"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "6e931a02a39abdbf66966fc35902b5ed58344750a70885bed4ebb3d8eaf28ed9"
+dependencies = [
+ "quote",
+ "wasm-bindgen-macro-support",
+]
+
+[[package]]
+name = "wasm-bindgen-macro-support"
+version = "0.2.130"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "2ca4b54280e455bd831e33a6b8e734baf432fe63fbc35c42ac14ce67a043a53a"
+dependencies = [
+ "bumpalo",
+ "proc-macro2",
+ "quote",
+ "syn 3.0.9",
+ "wasm-bindgen-shared",
+]
+
+[[package]]
+name = "wasm-bindgen-shared"
+version = "0.2.130"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "3b1f9c3798725016c6ee5f2f57869ec0831e8bbc0ab0310a86e787e97f41389e"
+dependencies = [
+ "unicode-ident",
+]
+
 [[package]]
 name = "winapi"
 version = "0.3.9"
@@ -703,13 +1314,99 @@ version = "0.4.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "712e227841d057c1ee1cd2fb22fa7e5a5461ae8e48fa2ca79ec42cfc1931183f"
 
+[[package]]
+name = "windows-core"
+version = "0.62.2"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "b8e83a14d34d0623b51dce9581199302a221863196a1dde71a7663a4c2be9deb"
+dependencies = [
+ "windows-implement",
+ "windows-interface",
+ "windows-link",
+ "windows-result",
+ "windows-strings",
+]
+
+[[package]]
+name = "windows-implement"
+version = "0.60.2"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "053e2e040ab57b9dc951b72c264860db7eb3b0200ba345b4e4c3b14f67855ddf"
+dependencies = [
+ "proc-macro2",
+ "quote",
+ "syn 2.0.119",
+]
+
+[[package]]
+name = "windows-interface"
+version = "0.59.3"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "3f316c4a2570ba26bbec722032c4099d8c8bc095efccdc15688708623367e358"
+dependencies = [
+ "proc-macro2",
+ "quote",
+ "syn 2.0.119",
+]
+
+[[package]]
+name = "windows-link"
+version = "0.2.1"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "f0805222e57f7521d6a62e36fa9163bc891acd422f971defe97d64e70d0a4fe5"
+
+[[package]]
+name = "windows-result"
+version = "0.4.1"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "7781fa89eaf60850ac3d2da7af8e5242a5ea78d1a11c49bf2910bb5a73853eb5"
+dependencies = [
+ "windows-link",
+]
+
+[[package]]
+name = "windows-strings"
+version = "0.5.1"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "7837d08f69c77cf6b07689544538e017c1bfcf57e34b4c0ff58e6c2cd3b37091"
+dependencies = [
+ "windows-link",
+]
+
 [[package]]
 name = "windows-sys"
 version = "0.45.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "75283be5efb2831d37ea142365f009c02ec203cd29a3ebecbc093d52315b66d0"
 dependencies = [
- "windows-targets",
+ "windows-targets 0.42.1",
+]
+
+[[package]]
+name = "windows-sys"
+version = "0.48.0"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "677d2418bec65e3338edb076e806bc1ec15693c5d0104683f2efe857f61056a9"
+dependencies = [
+ "windows-targets 0.48.5",
+]
+
+[[package]]
+name = "windows-sys"
+version = "0.59.0"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "1e38bc4d79ed67fd075bcc251a1c39b32a1776bbe92e5bef1f0bf1f8c531853b"
+dependencies = [
+ "windows-targets 0.52.6",
+]
+
+[[package]]
+name = "windows-sys"
+version = "0.61.2"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "ae137229bcbd6cdf0f7b80a31df61766145077ddf49416a728b02cb3921ff3fc"
+dependencies = [
+ "windows-link",
 ]
 
 [[package]]
@@ -718,13 +1415,44 @@ version = "0.42.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "8e2522491fbfcd58cc84d47aeb2958948c4b8982e9a2d8a2a35bbaed431390e7"
 dependencies = [
- "windows_aarch64_gnullvm",
- "windows_aarch64_msvc",
- "windows_i686_gnu",
- "windows_i686_msvc",
- "windows_x86_64_gnu",
- "windows_x86_64_gnullvm",
- "windows_x86_64_msvc",
+ "windows_aarch64_gnullvm 0.42.1",
+ "windows_aarch64_msvc 0.42.1",
+ "windows_i686_gnu 0.42.1",
+ "windows_i686_msvc 0.42.1",
+ "windows_x86_64_gnu 0.42.1",
+ "windows_x86_64_gnullvm 0.42.1",
+ "windows_x86_64_msvc 0.42.1",
+]
+
+[[package]]
+name = "windows-targets"
+version = "0.48.5"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "9a2fa6e2155d7247be68c096456083145c183cbbbc2764150dda45a87197940c"
+dependencies = [
+ "windows_aarch64_gnullvm 0.48.5",
+ "windows_aarch64_msvc 0.48.5",
+ "windows_i686_gnu 0.48.5",
+ "windows_i686_msvc 0.48.5",
+ "windows_x86_64_gnu 0.48.5",
+ "windows_x86_64_gnullvm 0.48.5",
+ "windows_x86_64_msvc 0.48.5",
+]
+
+[[package]]
+name = "windows-targets"
+version = "0.52.6"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "9b724f72796e036ab90c1021d4780d4d3d648aca59e491e6b98e725b84e99973"
+dependencies = [
+ "windows_aarch64_gnullvm 0.52.6",
+ "windows_aarch64_msvc 0.52.6",
+ "windows_i686_gnu 0.52.6",
+ "windows_i686_gnullvm",
+ "windows_i686_msvc 0.52.6",
+ "windows_x86_64_gnu 0.52.6",
+ "windows_x86_64_gnullvm 0.52.6",
+ "windows_x86_64_msvc 0.52.6",
 ]
 
 [[package]]
@@ -733,38 +1461,128 @@ version = "0.42.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "8c9864e83243fdec7fc9c5444389dcbbfd258f745e7853198f365e3c4968a608"
 
+[[package]]
+name = "windows_aarch64_gnullvm"
+version = "0.48.5"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "2b38e32f0abccf9987a4e3079dfb67dcd799fb61361e53e2882c3cbaf0d905d8"
+
+[[package]]
+name = "windows_aarch64_gnullvm"
+version = "0.52.6"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "32a4622180e7a0ec044bb555404c800bc9fd9ec262ec147edd5989ccd0c02cd3"
+
 [[package]]
 name = "windows_aarch64_msvc"
 version = "0.42.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "4c8b1b673ffc16c47a9ff48570a9d85e25d265735c503681332589af6253c6c7"
 
+[[package]]
+name = "windows_aarch64_msvc"
+version = "0.48.5"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "dc35310971f3b2dbbf3f0690a219f40e2d9afcf64f9ab7cc1be722937c26b4bc"
+
+[[package]]
+name = "windows_aarch64_msvc"
+version = "0.52.6"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "09ec2a7bb152e2252b53fa7803150007879548bc709c039df7627cabbd05d469"
+
 [[package]]
 name = "windows_i686_gnu"
 version = "0.42.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "de3887528ad530ba7bdbb1faa8275ec7a1155a45ffa57c37993960277145d640"
 
+[[package]]
+name = "windows_i686_gnu"
+version = "0.48.5"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "a75915e7def60c94dcef72200b9a8e58e5091744960da64ec734a6c6e9b3743e"
+
+[[package]]
+name = "windows_i686_gnu"
+version = "0.52.6"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "8e9b5ad5ab802e97eb8e295ac6720e509ee4c243f69d781394014ebfe8bbfa0b"
+
+[[package]]
+name = "windows_i686_gnullvm"
+version = "0.52.6"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "0eee52d38c090b3caa76c563b86c3a4bd71ef1a819287c19d586d7334ae8ed66"
+
 [[package]]
 name = "windows_i686_msvc"
 version = "0.42.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "bf4d1122317eddd6ff351aa852118a2418ad4214e6613a50e0191f7004372605"
 
+[[package]]
+name = "windows_i686_msvc"
+version = "0.48.5"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "8f55c233f70c4b27f66c523580f78f1004e8b5a8b659e05a4eb49d4166cca406"
+
+[[package]]
+name = "windows_i686_msvc"
+version = "0.52.6"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "240948bc05c5e7c6dabba28bf89d89ffce3e303022809e73deaefe4f6ec56c66"
+
 [[package]]
 name = "windows_x86_64_gnu"
 version = "0.42.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "c1040f221285e17ebccbc2591ffdc2d44ee1f9186324dd3e84e99ac68d699c45"
 
+[[package]]
+name = "windows_x86_64_gnu"
+version = "0.48.5"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "53d40abd2583d23e4718fddf1ebec84dbff8381c07cae67ff7768bbf19c6718e"
+
+[[package]]
+name = "windows_x86_64_gnu"
+version = "0.52.6"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "147a5c80aabfbf0c7d901cb5895d1de30ef2907eb21fbbab29ca94c5b08b1a78"
+
 [[package]]
 name = "windows_x86_64_gnullvm"
 version = "0.42.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "628bfdf232daa22b0d64fdb62b09fcc36bb01f05a3939e20ab73aaf9470d0463"
 
+[[package]]
+name = "windows_x86_64_gnullvm"
+version = "0.48.5"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "0b7b52767868a23d5bab768e390dc5f5c55825b6d30b86c844ff2dc7414044cc"
+
+[[package]]
+name = "windows_x86_64_gnullvm"
+version = "0.52.6"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "24d5b23dc417412679681396f2b49f3de8c1473deb516bd34410872eff51ed0d"
+
 [[package]]
 name = "windows_x86_64_msvc"
 version = "0.42.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "447660ad36a13288b1db4d4248e857b510e8c3a225c822ba4fb748c0aafecffd"
+
+[[package]]
+name = "windows_x86_64_msvc"
+version = "0.48.5"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "ed94fce61571a4006852b7389a063ab983c02eb1bb37b47f8272ce92d06d9538"
+
+[[package]]
+name = "windows_x86_64_msvc"
+version = "0.52.6"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "589f6da84c646204747d1270a2a5661ea66ed1cced2631d546fdfb155959f9ec"
diff --git a/src/context.rs b/src/context.rs
index d027164..c43749a 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -127,10 +127,7 @@ impl ContextManager {
     /// It will never attempt to get a variable from an exported context without a namespace.
     /// It will search the Context stack in reverse order for the variable.
     pub fn get_var(&self, name: &str) -> Option<Rc<RefCell<Var>>> {
-        if name.contains("::") {
-            let mut split = name.split("::");
-            let context_name = split.next().unwrap();
-            let var_name = split.next().unwrap();
+        if let Some((context_name, var_name)) = name.split_once("::") {
             if let Some(context) = self.get_context_by_name(context_name) {
                 context.borrow().get_var(var_name)
             } else {
@@ -204,10 +201,7 @@ impl ContextManager {
     /// It will never attempt to get a function from an exported context without a namespace.
     /// It will search the Context stack in reverse order for the function.
     pub fn get_function(&self, name: &str) -> Option<Rc<RefCell<FunctionBody>>> {
-        if name.contains("::") {
-            let mut split = name.split("::");
-            let context_name = split.next().unwrap();
-            let func_name = split.next().unwrap();
+        if let Some((context_name, func_name)) = name.split_once("::") {
             if let Some(context) = self.get_context_by_name(context_name) {
                 context.borrow().get_function(func_name)
             } else {
@@ -227,10 +221,7 @@ impl ContextManager {
     /// It will never attempt to remove a function from an exported context without a namespace.
     /// It will search the Context stack in reverse order for the function, stopping at the first one it finds.
     pub fn remove_function(&mut self, name: &str) {
-        if name.contains("::") {
-            let mut split = name.split("::");
-            let context_name = split.next().unwrap();
-            let func_name = split.next().unwrap();
+        if let Some((context_name, func_name)) = name.split_once("::") {
             if let Some(context) = self.get_context_by_name(context_name) {
                 context.borrow_mut().remove_function(func_name);
             }
@@ -247,10 +238,7 @@ impl ContextManager {
 
     /// Checks to see if a name corresponds to a function name.
     pub fn is_function(&self, name: &str) -> bool {
-        if name.contains("::") {
-            let mut split = name.split("::");
-            let context_name = split.next().unwrap();
-            let func_name = split.next().unwrap();
+        if let Some((context_name, func_name)) = name.split_once("::") {
             if let Some(context) = self.get_context_by_name(context_name) {
                 context.borrow().get_function(func_name).is_some()
             } else {
-- 
2.43.0

