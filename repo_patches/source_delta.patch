From 14aee7b8a686e9465e43c2611218c8b1076e38e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:23 +0000
Subject: [PATCH 01/33] fix: fs@read returns text as text after a failed first
 attempt

A read error on the first attempt made the second one deliver valid
UTF-8 as a byte list.
---
 src/binary/init/fs_module.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/binary/init/fs_module.rs b/src/binary/init/fs_module.rs
index ed0a3b7..3db06aa 100644
--- a/src/binary/init/fs_module.rs
+++ b/src/binary/init/fs_module.rs
@@ -259,14 +259,14 @@ pub fn get(env: &mut Environment) -> Expression {
             let file = args[0].eval(env)?;
             path = path.join(file.to_string());
 
-            match std::fs::read_to_string(&path) {
-                // First, try to read the contents as a string.
-                Ok(contents) => Ok(contents.into()),
-                // If that fails, try to read them as a list of bytes.
-                Err(_) => match std::fs::read(&path) {
-                    Ok(contents) => Ok(Expression::Bytes(contents)),
-                    Err(_) => Err(Error::CustomError(format!("could not read file {}", file)))
-                }
+            match std::fs::read(&path) {
+                // First, try to interpret the contents as a string.
+                Ok(contents) => match String::from_utf8(contents) {
+                    Ok(contents) => Ok(contents.into()),
+                    // If they are not valid UTF-8, return them as a list of bytes.
+                    Err(e) => Ok(Expression::Bytes(e.into_bytes()))
+                },
+                Err(_) => Err(Error::CustomError(format!("could not read file {}", file)))
             }
         }, "read a file's contents"),
 
-- 
2.43.0


From 092231f777d20120a6349124e497922a91ca8b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:24 +0000
Subject: [PATCH 02/33] fix: fs@tail returns the last lines in file order

---
 src/binary/init/fs_module.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/binary/init/fs_module.rs b/src/binary/init/fs_module.rs
index 3db06aa..7fa81dd 100644
--- a/src/binary/init/fs_module.rs
+++ b/src/binary/init/fs_module.rs
@@ -147,15 +147,12 @@ pub fn get(env: &mut Environment) -> Expression {
             };
 
             if let Ok(contents) = std::fs::read_to_string(path) {
-                let mut lines = contents.lines().rev();
+                let lines: Vec<&str> = contents.lines().collect();
+                let first = lines.len().saturating_sub(n.max(0) as usize);
                 let mut result = String::new();
-                for _ in 0..n {
-                    if let Some(line) = lines.next() {
-                        result.push_str(line);
-                        result.push('\n');
-                    } else {
-                        break;
-                    }
+                for line in &lines[first..] {
+                    result.push_str(line);
+                    result.push('\n');
                 }
                 Ok(result.into())
             } else {
-- 
2.43.0


From 643f07866a92e3bc60205cff872e2c9e519e41a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:25 +0000
Subject: [PATCH 03/33] fix: fs@cp and fs@mv never replace a destination they
 cannot follow

Path::exists is false for a dangling symbolic link and for any stat
failure, so the link (or an existing file) was written through or
replaced.
---
 src/binary/init/fs_module.rs | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/binary/init/fs_module.rs b/src/binary/init/fs_module.rs
index 7fa81dd..fdb0f72 100644
--- a/src/binary/init/fs_module.rs
+++ b/src/binary/init/fs_module.rs
@@ -347,6 +347,21 @@ pub fn get(env: &mut Environment) -> Expression {
     Expression::Map(fs_module)
 }
 
+/// Throw an error if anything, even a dangling symbolic link, exists at a destination path.
+fn check_destination(dst: &Path) -> Result<(), Error> {
+    match dst.symlink_metadata() {
+        Ok(_) => Err(Error::CustomError(format!(
+            "destination {} already exists",
+            dst.display()
+        ))),
+        Err(e) if e.kind() == std::io::ErrorKind::NotFound => Ok(()),
+        Err(_) => Err(Error::CustomError(format!(
+            "could not access destination {}",
+            dst.display()
+        ))),
+    }
+}
+
 /// Copy one path to another path.
 fn copy_path(src: &Path, dst: &Path) -> Result<(), Error> {
     if src == dst {
@@ -354,12 +369,7 @@ fn copy_path(src: &Path, dst: &Path) -> Result<(), Error> {
     }
 
     // If the destination exists, simply throw an error.
-    if dst.exists() {
-        return Err(Error::CustomError(format!(
-            "destination {} already exists",
-            dst.display()
-        )));
-    }
+    check_destination(dst)?;
 
     // If the source is a directory, recursively copy the directory.
     if src.is_dir() {
@@ -415,12 +425,7 @@ fn move_path(src: &Path, dst: &Path) -> Result<(), Error> {
     }
 
     // If the destination exists, simply throw an error.
-    if dst.exists() {
-        return Err(Error::CustomError(format!(
-            "destination {} already exists",
-            dst.display()
-        )));
-    }
+    check_destination(dst)?;
 
     // Attempt to rename the source to the destination.
     if std::fs::rename(src, dst).is_err() {
-- 
2.43.0


From 93723be570fcd2d42280425a96f8b2aa395a2162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:25 +0000
Subject: [PATCH 04/33] fix: fs@cp refuses to copy a directory into itself

It recursed into its own output until the path was too long.
---
 src/binary/init/fs_module.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/binary/init/fs_module.rs b/src/binary/init/fs_module.rs
index fdb0f72..5549c7a 100644
--- a/src/binary/init/fs_module.rs
+++ b/src/binary/init/fs_module.rs
@@ -373,6 +373,19 @@ fn copy_path(src: &Path, dst: &Path) -> Result<(), Error> {
 
     // If the source is a directory, recursively copy the directory.
     if src.is_dir() {
+        // A directory cannot be copied into itself or anything below it.
+        if let (Ok(src), Some(parent)) = (
+            dunce::canonicalize(src),
+            dst.ancestors().find_map(|p| dunce::canonicalize(p).ok()),
+        ) {
+            if parent.starts_with(&src) {
+                return Err(Error::CustomError(format!(
+                    "cannot copy directory {} into itself",
+                    src.display()
+                )));
+            }
+        }
+
         // Create the destination directory and all of its parents.
         if std::fs::create_dir_all(dst).is_err() {
             return Err(Error::CustomError(format!(
-- 
2.43.0


From 12f79529dd999d044ee1a4d60a1e0a2d4720ec1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:26 +0000
Subject: [PATCH 05/33] fix: fs@glob reports a bad pattern and globs in the
 shell's directory

A malformed pattern panicked, and relative patterns were taken from the
process's directory, which a cd inside a function leaves behind.
---
 src/binary/init/fs_module.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/binary/init/fs_module.rs b/src/binary/init/fs_module.rs
index 5549c7a..8226726 100644
--- a/src/binary/init/fs_module.rs
+++ b/src/binary/init/fs_module.rs
@@ -325,7 +325,19 @@ pub fn get(env: &mut Environment) -> Expression {
             let pattern = args[0].eval(env)?.to_string();
             let mut result = vec![];
 
-            for entry in glob::glob(&pattern).unwrap() {
+            // Relative patterns start in the shell's directory, not the process's.
+            let full_pattern = if Path::new(&pattern).is_relative() && !pattern.is_empty() {
+                let cwd = glob::Pattern::escape(&env.get_cwd());
+                format!("{}/{}", cwd.trim_end_matches('/'), pattern)
+            } else {
+                pattern.clone()
+            };
+
+            let entries = glob::glob(&full_pattern).map_err(|e| {
+                Error::CustomError(format!("could not glob pattern {}: {}", pattern, e))
+            })?;
+
+            for entry in entries {
                 match entry {
                     Ok(path) => {
                         // Strip prefix from path
-- 
2.43.0


From 039dafb2ef2a29881b6e2fadc43f5d74271cb5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:24 +0000
Subject: [PATCH 06/33] fix: no panic on paths that are not UTF-8 or have no
 parent

fs@tree, fs@canon, cd and sys@cd unwrapped the path's text; fs@tree
also unwrapped the parent of the root directory.
---
 src/binary/init/fs_module.rs  | 15 ++++++++-------
 src/binary/init/os_module.rs  |  9 ++++++++-
 src/binary/init/sys_module.rs |  9 +++++++--
 3 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/binary/init/fs_module.rs b/src/binary/init/fs_module.rs
index 8226726..6485668 100644
--- a/src/binary/init/fs_module.rs
+++ b/src/binary/init/fs_module.rs
@@ -11,11 +11,9 @@ use dune::{Environment, Error, Expression};
 fn get_dir_tree(cwd: &Path, max_depth: Option<Int>) -> BTreeMap<String, Expression> {
     let mut dir_tree = b_tree_map! {};
 
-    dir_tree.insert(".".to_string(), Expression::from(cwd.to_str().unwrap()));
-    dir_tree.insert(
-        "..".to_string(),
-        Expression::from(cwd.parent().unwrap().to_str().unwrap()),
-    );
+    let name = |path: &Path| Expression::from(path.to_string_lossy().to_string());
+    dir_tree.insert(".".to_string(), name(cwd));
+    dir_tree.insert("..".to_string(), name(cwd.parent().unwrap_or(cwd)));
 
     if let Ok(entries) = std::fs::read_dir(cwd) {
         for entry in entries.flatten() {
@@ -30,7 +28,7 @@ fn get_dir_tree(cwd: &Path, max_depth: Option<Int>) -> BTreeMap<String, Expressi
                 } else {
                     dir_tree.insert(
                         file_name,
-                        Expression::from(path.into_os_string().into_string().unwrap()),
+                        name(&path),
                     );
                 }
             }
@@ -165,7 +163,10 @@ pub fn get(env: &mut Environment) -> Expression {
             let path = cwd.join(args[0].eval(env)?.to_string());
 
             if let Ok(canon_path) = dunce::canonicalize(&path) {
-                Ok(canon_path.into_os_string().into_string().unwrap().into())
+                match canon_path.into_os_string().into_string() {
+                    Ok(canon_path) => Ok(canon_path.into()),
+                    Err(_) => Err(Error::CustomError(format!("could not canonicalize path {}", path.display())))
+                }
             } else {
                 Err(Error::CustomError(format!("could not canonicalize path {}", path.display())))
             }
diff --git a/src/binary/init/os_module.rs b/src/binary/init/os_module.rs
index 01ae0c7..63f077f 100644
--- a/src/binary/init/os_module.rs
+++ b/src/binary/init/os_module.rs
@@ -53,6 +53,13 @@ fn cd(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, dune::
                 })
             })?;
 
+            let name = new_cwd.to_str().map(String::from).ok_or_else(|| {
+                dune::Error::CustomError(format!(
+                    "the name of directory {:?} is not valid UTF-8",
+                    new_cwd
+                ))
+            })?;
+
             std::env::set_current_dir(&new_cwd).map_err(|e| {
                 dune::Error::CustomError(match format!("{:?}", e.kind()).as_str() {
                     "PermissionDenied" => {
@@ -68,7 +75,7 @@ fn cd(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, dune::
                 })
             })?;
 
-            env.set_cwd(new_cwd.into_os_string().into_string().unwrap());
+            env.set_cwd(name);
             Ok(Expression::None)
         }
 
diff --git a/src/binary/init/sys_module.rs b/src/binary/init/sys_module.rs
index 3ab218b..3a7f88d 100644
--- a/src/binary/init/sys_module.rs
+++ b/src/binary/init/sys_module.rs
@@ -56,8 +56,13 @@ pub fn get() -> Expression {
             let path = cwd.join(args[0].eval(env)?.to_string());
 
             if let Ok(canon_path) = dunce::canonicalize(&path) {
-                env.set_cwd(canon_path.to_str().unwrap().to_string());
-                Ok(Expression::None)
+                match canon_path.to_str() {
+                    Some(cwd) => {
+                        env.set_cwd(cwd);
+                        Ok(Expression::None)
+                    }
+                    None => Err(Error::CustomError(format!("could not canonicalize path {}", path.display())))
+                }
             } else {
                 Err(Error::CustomError(format!("could not canonicalize path {}", path.display())))
             }
-- 
2.43.0


From dc0aadf1a17d904998309f31696fd310379cce47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:25 +0000
Subject: [PATCH 07/33] fix: a NUL byte in a variable no longer makes every
 program fail to start

---
 src/binary/init/operator_module.rs | 4 +++-
 src/expr.rs                        | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/binary/init/operator_module.rs b/src/binary/init/operator_module.rs
index f12eef4..751061e 100644
--- a/src/binary/init/operator_module.rs
+++ b/src/binary/init/operator_module.rs
@@ -468,7 +468,9 @@ fn expr_to_command<'a>(
         // This causes some strange bugs on Linux: mainly it becomes
         // impossible to execute any program because `the argument
         // list is too long`.
-        .filter(|(_, s)| s.len() <= 1024);
+        .filter(|(_, s)| s.len() <= 1024)
+        // A NUL byte cannot be part of the environment of a program.
+        .filter(|(k, s)| !k.contains('\0') && !s.contains('\0'));
 
     Ok(match expr {
         // If the command is quoted or in parentheses, try to get the inner command.
diff --git a/src/expr.rs b/src/expr.rs
index 639924e..5549f07 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -541,6 +541,8 @@ impl Expression {
                             // impossible to execute any program because `the argument
                             // list is too long`.
                             .filter(|(_, s)| s.len() <= 1024)
+                            // A NUL byte cannot be part of the environment of a program.
+                            .filter(|(k, s)| !k.contains('\0') && !s.contains('\0'))
                             .collect::<BTreeMap<String, String>>();
 
                         let mut cmd_args = vec![];
-- 
2.43.0


From 0bd7d5f8827fbd8ac5246af0fb4be39af664585b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:25 +0000
Subject: [PATCH 08/33] fix: console builtins report input failures instead of
 panicking

---
 src/binary/init/console_module.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/binary/init/console_module.rs b/src/binary/init/console_module.rs
index 0634696..a751325 100644
--- a/src/binary/init/console_module.rs
+++ b/src/binary/init/console_module.rs
@@ -11,8 +11,10 @@ pub fn get() -> Expression {
         String::from("title") => Expression::builtin("title", title, "set the title of the console"),
         String::from("clear") => Expression::builtin("clear", clear, "clear the console"),
         String::from("flush") => Expression::builtin("flush", |_, _| {
-            std::io::stdout().flush().unwrap();
-            Ok(Expression::None)
+            match std::io::stdout().flush() {
+                Ok(()) => Ok(Expression::None),
+                Err(e) => Err(Error::CustomError(format!("could not flush the console: {}", e)))
+            }
         }, "flush the console"),
         String::from("mode") => Expression::Map(b_tree_map! {
             String::from("raw") => Expression::builtin("raw", |_, _| {
@@ -118,15 +120,22 @@ pub fn get() -> Expression {
         String::from("keyboard") => Expression::Map(b_tree_map! {
             String::from("read-line") => Expression::builtin("read-line", |_, _| {
                 let mut buffer = String::new();
-                std::io::stdin().read_line(&mut buffer).unwrap();
-                Ok(Expression::String(buffer))
+                match std::io::stdin().read_line(&mut buffer) {
+                    Ok(_) => Ok(Expression::String(buffer)),
+                    Err(e) => Err(Error::CustomError(format!("could not read a line: {}", e)))
+                }
             }, "read a line from the keyboard"),
             String::from("read-password") => Expression::builtin("read-password", |_, _| {
-                let password = rpassword::read_password().unwrap();
-                Ok(Expression::String(password))
+                match rpassword::read_password() {
+                    Ok(password) => Ok(Expression::String(password)),
+                    Err(e) => Err(Error::CustomError(format!("could not read a password: {}", e)))
+                }
             }, "read a password from the keyboard"),
             String::from("read-key") => Expression::builtin("read-key", |_, _| {
-                let key = crossterm::event::read().unwrap();
+                let key = match crossterm::event::read() {
+                    Ok(key) => key,
+                    Err(e) => return Err(Error::CustomError(format!("could not read a key: {}", e)))
+                };
                 // Get the key as a string.
                 let key = match key {
                     crossterm::event::Event::Key(key) => key,
-- 
2.43.0


From cca006c2bef2a8c76077d421869b0cbc7dba73d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:26 +0000
Subject: [PATCH 09/33] fix: rand@int and rand@choose report an empty range or
 list instead of panicking

---
 src/binary/init/rand_module.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/binary/init/rand_module.rs b/src/binary/init/rand_module.rs
index dcfe21e..3f91f7b 100644
--- a/src/binary/init/rand_module.rs
+++ b/src/binary/init/rand_module.rs
@@ -15,6 +15,12 @@ fn int(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Error
     super::check_exact_args_len("int", &args, 2)?;
     match (args[0].eval(env)?, args[1].eval(env)?) {
         (Expression::Integer(l), Expression::Integer(h)) => {
+            if l >= h {
+                return Err(Error::CustomError(format!(
+                    "cannot choose an integer from the empty range {} to {}",
+                    l, h
+                )));
+            }
             let mut rng = rand::thread_rng();
             let n = Uniform::new(l, h);
             Ok(Expression::Integer(rng.sample(n)))
@@ -30,6 +36,11 @@ fn choose(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Er
     super::check_exact_args_len("choose", &args, 1)?;
     match args[0].eval(env)? {
         Expression::List(list) => {
+            if list.is_empty() {
+                return Err(Error::CustomError(
+                    "cannot choose from an empty list".to_string(),
+                ));
+            }
             let mut rng = rand::thread_rng();
             let n = Uniform::new(0, list.len());
             Ok(list[rng.sample(n)].clone())
-- 
2.43.0


From 89adf70acc39bf5d6c492b8a31919910afbc1aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:27 +0000
Subject: [PATCH 10/33] fix: sleeping a negative number of milliseconds returns
 at once

The cast to u64 made it sleep for half a billion years.
---
 src/binary/init/time_module.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/init/time_module.rs b/src/binary/init/time_module.rs
index 6f23fc2..661fd48 100644
--- a/src/binary/init/time_module.rs
+++ b/src/binary/init/time_module.rs
@@ -19,7 +19,7 @@ fn sleep(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Err
 
     match args[0].eval(env)? {
         Expression::Float(n) => thread::sleep(Duration::from_millis(n as u64)),
-        Expression::Integer(n) => thread::sleep(Duration::from_millis(n as u64)),
+        Expression::Integer(n) => thread::sleep(Duration::from_millis(n.max(0) as u64)),
         otherwise => {
             return Err(Error::CustomError(format!(
                 "expected integer or float, but got {}",
-- 
2.43.0


From d1326c8a484730fe1b489960d6791fac92cea10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:28 +0000
Subject: [PATCH 11/33] fix: errors carry the code that err@codes lists for
 their kind

---
 src/error.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 27d69b8..4309dc4 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -55,9 +55,9 @@ impl Error {
             Self::ForNonList(..) => Self::ERROR_CODE_FOR_NON_LIST,
             Self::RecursionDepth(..) => Self::ERROR_CODE_RECURSION_DEPTH,
             Self::CustomError(..) => Self::ERROR_CODE_CUSTOM_ERROR,
-            Self::PermissionDenied(..) => Self::ERROR_CODE_CUSTOM_ERROR,
-            Self::ProgramNotFound(..) => Self::ERROR_CODE_CUSTOM_ERROR,
-            Self::SyntaxError(..) => Self::ERROR_CODE_CUSTOM_ERROR,
+            Self::PermissionDenied(..) => Self::ERROR_CODE_PERMISSION_DENIED,
+            Self::ProgramNotFound(..) => Self::ERROR_CODE_PROGRAM_NOT_FOUND,
+            Self::SyntaxError(..) => Self::ERROR_CODE_SYNTAX_ERROR,
         }
     }
 }
-- 
2.43.0


From 845964b491bd789d09834f5d19be49ac4c2ed2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:13 +0000
Subject: [PATCH 12/33] fix: text printed before starting a program appears
 before its output

An unfinished line stayed in the shell's buffer while the program wrote.
---
 src/binary/init/operator_module.rs | 3 +++
 src/expr.rs                        | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/binary/init/operator_module.rs b/src/binary/init/operator_module.rs
index 751061e..00c479b 100644
--- a/src/binary/init/operator_module.rs
+++ b/src/binary/init/operator_module.rs
@@ -345,6 +345,9 @@ fn pipe_builtin(args: Vec<Expression>, env: &mut Environment) -> Result<Expressi
                     cmd = cmd.stdout(Stdio::piped());
                 }
 
+                // Anything printed so far comes before the output of the command.
+                let _ = std::io::stdout().flush();
+
                 // Try to execute the command.
                 if let Ok(mut child_handler) = cmd.spawn() {
                     // If we need to pipe in STDIN:
diff --git a/src/expr.rs b/src/expr.rs
index 5549f07..a3aa348 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -3,7 +3,7 @@ use std::{
     cmp::Ordering,
     collections::BTreeMap,
     fmt,
-    io::ErrorKind,
+    io::{stdout, ErrorKind, Write},
     ops::{Add, Div, Index, Mul, Neg, Rem, Sub},
     process::Command,
 };
@@ -561,6 +561,9 @@ impl Expression {
                             }
                         }
 
+                        // Anything printed so far comes before the output of the program.
+                        let _ = stdout().flush();
+
                         match Command::new(&name)
                             .current_dir(env.get_cwd())
                             .args(
-- 
2.43.0


From 0664b4ebb72d9deecec0c04778f7f4225b5f967f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:14 +0000
Subject: [PATCH 13/33] fix: pipelines neither deadlock nor fail over unread
 input

The shell wrote all of a command's input before reading any of its
output, so both blocked when either exceeded the pipe's capacity; a
command that exited early made the pipeline fail and stayed unreaped.
---
 src/binary/init/operator_module.rs | 85 ++++++++++++++----------------
 1 file changed, 40 insertions(+), 45 deletions(-)

diff --git a/src/binary/init/operator_module.rs b/src/binary/init/operator_module.rs
index 00c479b..c1650bf 100644
--- a/src/binary/init/operator_module.rs
+++ b/src/binary/init/operator_module.rs
@@ -1,7 +1,7 @@
 use super::{curry, reverse_curry};
 use dune::{Environment, Error, Expression};
 use std::{
-    io::Write,
+    io::{ErrorKind, Write},
     process::{Command, Stdio},
 };
 
@@ -350,55 +350,40 @@ fn pipe_builtin(args: Vec<Expression>, env: &mut Environment) -> Result<Expressi
 
                 // Try to execute the command.
                 if let Ok(mut child_handler) = cmd.spawn() {
-                    // If we need to pipe in STDIN:
-                    if !is_first {
-                        // Attempt to grab the STDIN of the process from the handler.
-                        if let Some(stdin) = child_handler.stdin.as_mut() {
-                            // Write the contents of the previous command's STDOUT
-                            // to the process's STDIN.
-                            if stdin.write_all(&buf).is_err() {
-                                return Err(Error::CustomError(format!(
-                                    "error when piping into process `{}`",
-                                    expr
-                                )));
-                            }
-
-                            // Zero out all of our information about the previous command.
-                            buf = vec![];
-                            result_of_last_cmd = Expression::None;
-
-                            // Flush the STDIN buffer to force the process to read it.
-                            stdin.flush().unwrap();
-                        } else {
-                            return Err(Error::CustomError(format!(
-                                "error when piping into process `{}`",
-                                expr
-                            )));
-                        }
-                    }
-
-                    if is_last {
-                        // If this is the last command in the pipe, then simply
-                        // wait for it to finish without piping in any input.
-                        if child_handler.wait().is_err() {
-                            return Err(Error::CustomError(format!(
-                                "error when waiting for process `{}`",
-                                expr
-                            )));
-                        }
+                    // If we need to pipe in STDIN, write the contents of the previous
+                    // command's STDOUT from another thread, so that a command which
+                    // produces output before consuming all of its input cannot block us.
+                    // Dropping the STDIN handle afterwards lets the command see its end.
+                    let input = std::mem::take(&mut buf);
+                    let writer = child_handler.stdin.take().map(|mut stdin| {
+                        std::thread::Builder::new().spawn(move || stdin.write_all(&input))
+                    });
+
+                    // Wait for the command to finish. If it is not the last command,
+                    // then also collect its standard output for the next process in the pipe.
+                    let output = if is_last {
+                        child_handler.wait().map(|_| vec![])
                     } else {
-                        // If it is not the last command, then we need
-                        // collect its standard output for the next process
-                        // in the pipe.
+                        child_handler.wait_with_output().map(|output| output.stdout)
+                    };
+
+                    let written = match writer {
+                        Some(Ok(handle)) => handle.join().unwrap_or(Ok(())),
+                        Some(Err(e)) => Err(e),
+                        None => Ok(()),
+                    };
 
-                        // Attempt to grab the STDOUT of the process from the handler.
-                        if let Ok(output) = child_handler.wait_with_output() {
+                    // Zero out all of our information about the previous command.
+                    result_of_last_cmd = Expression::None;
+
+                    match output {
+                        Ok(output) if !is_last => {
                             // Store the contents of the STDOUT into the buffer
                             // for the next process.
-                            buf = output.stdout.clone();
+                            buf = output.clone();
 
                             // Store the result of the command into the accumulator.
-                            result_of_last_cmd = if let Ok(s) = String::from_utf8(output.stdout) {
+                            result_of_last_cmd = if let Ok(s) = String::from_utf8(output) {
                                 // If the command returned valid UTF-8,
                                 // then store it as a string.
                                 Expression::String(s)
@@ -407,13 +392,23 @@ fn pipe_builtin(args: Vec<Expression>, env: &mut Environment) -> Result<Expressi
                                 // prevent the loss of any data.
                                 Expression::Bytes(buf.clone())
                             };
-                        } else {
+                        }
+                        Ok(_) => {}
+                        Err(_) => {
                             return Err(Error::CustomError(format!(
                                 "error when waiting for process `{}`",
                                 expr
                             )));
                         }
                     }
+
+                    // A command may finish without reading all of its input.
+                    if matches!(written, Err(e) if e.kind() != ErrorKind::BrokenPipe) {
+                        return Err(Error::CustomError(format!(
+                            "error when piping into process `{}`",
+                            expr
+                        )));
+                    }
                 } else {
                     // We couldn't spawn the command.
                     return Err(Error::CustomError(format!(
-- 
2.43.0


From 817d0c5e149bc832f50b13c929e125f1f9cdaecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:15 +0000
Subject: [PATCH 14/33] fix: an interrupt no longer starts a second prompt loop

The Ctrl-C handler ran another repl on its own thread, which competed
with the first one for the lines typed afterwards.
---
 src/bin.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/bin.rs b/src/bin.rs
index c85931b..374a5d2 100644
--- a/src/bin.rs
+++ b/src/bin.rs
@@ -667,15 +667,12 @@ fn main() -> Result<(), Error> {
     }
 
     let editor_ref = Arc::new(Mutex::new(rl));
-    let editor_ref_copy = editor_ref.clone();
 
     let env_ref = Arc::new(Mutex::new(env));
-    let env_ref_copy = env_ref.clone();
 
-    ctrlc::set_handler(move || {
-        repl(editor_ref_copy.clone(), env_ref_copy.clone()).expect("Error in REPL");
-    })
-    .expect("Error setting Ctrl-C handler");
+    // An interrupt is for the line being edited or for the program being run:
+    // the session itself survives it.
+    ctrlc::set_handler(|| {}).expect("Error setting Ctrl-C handler");
 
     repl(editor_ref, env_ref)?;
 
-- 
2.43.0


From e72003e8d29d0ad25042ee4b9298ce2474e41c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:15 +0000
Subject: [PATCH 15/33] fix: --exec shows its result without evaluating it
 again

---
 src/bin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin.rs b/src/bin.rs
index 374a5d2..04fabcd 100644
--- a/src/bin.rs
+++ b/src/bin.rs
@@ -618,7 +618,7 @@ fn main() -> Result<(), Error> {
             Ok(result) => {
                 Expression::Apply(
                     Box::new(Expression::Symbol("report".to_string())),
-                    vec![result],
+                    vec![Expression::Quote(Box::new(result))],
                 )
                 .eval(&mut env)?;
             }
-- 
2.43.0


From ec90cb6778937cbf9f4b7714a1ccd56f769be2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:16 +0000
Subject: [PATCH 16/33] fix: the default prelude never overwrites a file and is
 never left cut short

A failed stat made an existing prelude look missing, and accepting the
offer then truncated it; a failed write left a partial prelude behind.
---
 src/bin.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/bin.rs b/src/bin.rs
index 04fabcd..fc64743 100644
--- a/src/bin.rs
+++ b/src/bin.rs
@@ -21,7 +21,9 @@ use os_info::Type;
 
 use std::{
     borrow::Cow::{self, Borrowed, Owned},
-    path::PathBuf,
+    fs::OpenOptions,
+    io::Write,
+    path::{Path, PathBuf},
     process::exit,
     sync::{Arc, Mutex},
 };
@@ -543,6 +545,15 @@ fn run_file(path: PathBuf, env: &mut Environment) -> Result<Expression, Error> {
     }
 }
 
+/// Write the default prelude to a new file: never over an existing one, and never only in part.
+fn write_default_prelude(path: &Path) -> std::io::Result<()> {
+    let mut file = OpenOptions::new().write(true).create_new(true).open(path)?;
+    file.write_all(DEFAULT_PRELUDE.as_bytes()).map_err(|e| {
+        let _ = std::fs::remove_file(path);
+        e
+    })
+}
+
 fn main() -> Result<(), Error> {
     let matches = App::new(
         r#"
@@ -639,7 +650,7 @@ fn main() -> Result<(), Error> {
             let response = readline(prompt, &mut rl);
 
             if response.to_lowercase().trim() == "y" {
-                if let Err(e) = std::fs::write(&prelude_path, DEFAULT_PRELUDE) {
+                if let Err(e) = write_default_prelude(&prelude_path) {
                     eprintln!("Error while writing prelude: {}", e);
                 }
             }
-- 
2.43.0


From 9723fdb01aee9561300b47d073a476f3678e7ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:17 +0000
Subject: [PATCH 17/33] fix: a history file that could not be loaded is not
 overwritten

After a failed load the first entry replaced the whole file.
---
 src/bin.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/bin.rs b/src/bin.rs
index fc64743..72c38f3 100644
--- a/src/bin.rs
+++ b/src/bin.rs
@@ -22,7 +22,7 @@ use os_info::Type;
 use std::{
     borrow::Cow::{self, Borrowed, Owned},
     fs::OpenOptions,
-    io::Write,
+    io::{ErrorKind, Write},
     path::{Path, PathBuf},
     process::exit,
     sync::{Arc, Mutex},
@@ -447,10 +447,10 @@ fn parse(input: &str) -> Result<Expression, Error> {
 fn repl(
     atomic_rl: Arc<Mutex<Editor<DuneHelper>>>,
     atomic_env: Arc<Mutex<Environment>>,
+    history_path: Option<PathBuf>,
 ) -> Result<(), Error> {
     let mut lines = vec![];
 
-    let history_path = get_history_path();
     loop {
         let mut env = atomic_env.lock().unwrap();
         let mut rl = atomic_rl.lock().unwrap();
@@ -672,9 +672,17 @@ fn main() -> Result<(), Error> {
     }
 
     let mut rl = new_editor(&env);
-    let history_path = get_history_path();
-    if let Some(path) = history_path {
-        if rl.load_history(&path).is_err() {}
+    let mut history_path = get_history_path();
+    if let Some(path) = &history_path {
+        match rl.load_history(path) {
+            Ok(()) => {}
+            Err(ReadlineError::Io(e)) if e.kind() == ErrorKind::NotFound => {}
+            Err(e) => {
+                // Saving now would replace the entries that could not be loaded.
+                eprintln!("Failed to load history, it will not be saved: {}", e);
+                history_path = None;
+            }
+        }
     }
 
     let editor_ref = Arc::new(Mutex::new(rl));
@@ -685,7 +693,7 @@ fn main() -> Result<(), Error> {
     // the session itself survives it.
     ctrlc::set_handler(|| {}).expect("Error setting Ctrl-C handler");
 
-    repl(editor_ref, env_ref)?;
+    repl(editor_ref, env_ref, history_path)?;
 
     Ok(())
 }
-- 
2.43.0


From caafa45703483e7c7feffe07a82a755e0bddc8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:39 +0000
Subject: [PATCH 18/33] fix: input reports the end of input instead of ending
 the shell

A script that asked for input after its end exited with status 0,
silently skipping everything that followed.
---
 src/bin.rs             | 23 ++++++++++++++---------
 src/binary/init/mod.rs |  5 ++++-
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/bin.rs b/src/bin.rs
index 72c38f3..16c41f7 100644
--- a/src/bin.rs
+++ b/src/bin.rs
@@ -83,19 +83,24 @@ fn strip_ansi_escapes(text: impl ToString) -> String {
     result
 }
 
+/// Read one line; an interrupt leaves it empty.
+fn try_readline(prompt: &str, rl: &mut Editor<DuneHelper>) -> Result<String, ReadlineError> {
+    // This MUST be called to update the prompt.
+    if let Some(helper) = rl.helper_mut() {
+        helper.set_prompt(prompt);
+    }
+
+    match rl.readline(&strip_ansi_escapes(prompt)) {
+        Err(ReadlineError::Interrupted) => Ok(String::new()),
+        result => result,
+    }
+}
+
 fn readline(prompt: impl ToString, rl: &mut Editor<DuneHelper>) -> String {
     let prompt = prompt.to_string();
     loop {
-        // This MUST be called to update the prompt.
-        if let Some(helper) = rl.helper_mut() {
-            helper.set_prompt(&prompt);
-        }
-
-        match rl.readline(&strip_ansi_escapes(&prompt)) {
+        match try_readline(&prompt, rl) {
             Ok(line) => return line,
-            Err(ReadlineError::Interrupted) => {
-                return String::new();
-            }
             Err(ReadlineError::Eof) => exit(0),
             Err(err) => {
                 eprintln!("Error: {:?}", err);
diff --git a/src/binary/init/mod.rs b/src/binary/init/mod.rs
index 4d8e79a..9854885 100644
--- a/src/binary/init/mod.rs
+++ b/src/binary/init/mod.rs
@@ -163,7 +163,10 @@ pub fn init(env: &mut Environment) {
                 }
             }
             let mut rl = crate::new_editor(env);
-            Ok(Expression::String(crate::readline(&prompt, &mut rl)))
+            match crate::try_readline(&prompt, &mut rl) {
+                Ok(line) => Ok(Expression::String(line)),
+                Err(e) => Err(Error::CustomError(format!("could not read input: {}", e))),
+            }
         },
         "get user input",
     );
-- 
2.43.0


From 5a63713450330699dfa3faa5d46eb0a2abfb9b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:59 +0000
Subject: [PATCH 19/33] fix: an escaped non-ASCII character in a string no
 longer panics the tokenizer

---
 src/tokenizer.rs | 3 ++-
 src/tokens.rs    | 4 ----
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index c094193..69b3532 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -304,7 +304,8 @@ fn parse_escape(input: Input<'_>) -> TokenizationResult<'_, Diagnostic> {
             }
         }
         Err(_) => {
-            let (rest, range) = input.split_saturating(2);
+            let escaped = rest.chars().next().map_or(0, char::len_utf8);
+            let (rest, range) = input.split_at(1 + escaped);
             let ranges = vec![range].into_boxed_slice();
             return Ok((rest, Diagnostic::InvalidStringEscapes(ranges)));
         }
diff --git a/src/tokens.rs b/src/tokens.rs
index 339cbfa..47cd576 100644
--- a/src/tokens.rs
+++ b/src/tokens.rs
@@ -53,10 +53,6 @@ impl<'a> Input<'a> {
         (new_input, slice)
     }
 
-    pub fn split_saturating(self, n: usize) -> (Self, StrSlice) {
-        self.split_at(n.min(self.len()))
-    }
-
     pub fn split_until(self, other: Input<'_>) -> (Self, StrSlice) {
         assert!(std::ptr::eq(self.str, other.str));
         let diff = self.len() - other.len();
-- 
2.43.0


From 893de474e93bfe0144b2cf135eae2eef971a8e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:14 +0000
Subject: [PATCH 20/33] fix: a home or working directory whose name is not
 UTF-8 no longer panics at start

---
 src/binary/init/fs_module.rs    | 10 +++++-----
 src/binary/init/shell_module.rs |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/binary/init/fs_module.rs b/src/binary/init/fs_module.rs
index 6485668..102dae6 100644
--- a/src/binary/init/fs_module.rs
+++ b/src/binary/init/fs_module.rs
@@ -42,30 +42,30 @@ pub fn get(env: &mut Environment) -> Expression {
     let mut dir_tree = b_tree_map! {};
 
     if let Some(home_dir) = dirs::home_dir() {
-        let home_dir = home_dir.into_os_string().into_string().unwrap();
+        let home_dir = home_dir.to_string_lossy().into_owned();
         env.set_cwd(&home_dir);
         dir_tree.insert("home".to_string(), Expression::from(home_dir.clone()));
         env.define("HOME", Expression::String(home_dir));
     }
 
     if let Ok(cwd) = current_dir() {
-        env.set_cwd(&cwd.into_os_string().into_string().unwrap());
+        env.set_cwd(cwd.to_string_lossy());
     }
 
     if let Some(desk_dir) = dirs::desktop_dir() {
-        let desk_dir = desk_dir.into_os_string().into_string().unwrap();
+        let desk_dir = desk_dir.to_string_lossy().into_owned();
         dir_tree.insert("desk".to_string(), desk_dir.clone().into());
         env.define("DESK", Expression::String(desk_dir));
     }
 
     if let Some(docs_dir) = dirs::document_dir() {
-        let docs_dir = docs_dir.into_os_string().into_string().unwrap();
+        let docs_dir = docs_dir.to_string_lossy().into_owned();
         dir_tree.insert("docs".to_string(), docs_dir.clone().into());
         env.define("DOCS", Expression::String(docs_dir));
     }
 
     if let Some(down_dir) = dirs::download_dir() {
-        let down_dir = down_dir.into_os_string().into_string().unwrap();
+        let down_dir = down_dir.to_string_lossy().into_owned();
         dir_tree.insert("down".to_string(), down_dir.clone().into());
         env.define("DOWN", Expression::String(down_dir));
     }
diff --git a/src/binary/init/shell_module.rs b/src/binary/init/shell_module.rs
index 3ebe7b8..c11c0a9 100644
--- a/src/binary/init/shell_module.rs
+++ b/src/binary/init/shell_module.rs
@@ -12,7 +12,7 @@ pub fn get() -> Expression {
         String::from("version") => Expression::String(VERSION.to_string()),
         String::from("path") => {
             if let Ok(path) = current_exe() {
-                Expression::String(path.to_str().unwrap().to_string())
+                Expression::String(path.to_string_lossy().into_owned())
             } else {
                 Expression::None
             }
@@ -30,7 +30,7 @@ pub fn get() -> Expression {
             let prelude_path = if let Some(home_dir) = dirs::home_dir() {
                 let prelude_path = home_dir.join(".dune-prelude");
                 if prelude_path.exists() {
-                    Expression::String(prelude_path.to_str().unwrap().to_string())
+                    Expression::String(prelude_path.to_string_lossy().into_owned())
                 } else {
                     Expression::None
                 }
-- 
2.43.0


From c4b689fc45879e22fc4a5ad9fbdf53ddbad2edab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:12 +0000
Subject: [PATCH 21/33] fix: fs@tree honours its maximum depth

---
 src/binary/init/fs_module.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/binary/init/fs_module.rs b/src/binary/init/fs_module.rs
index 102dae6..0fbb47a 100644
--- a/src/binary/init/fs_module.rs
+++ b/src/binary/init/fs_module.rs
@@ -15,6 +15,10 @@ fn get_dir_tree(cwd: &Path, max_depth: Option<Int>) -> BTreeMap<String, Expressi
     dir_tree.insert(".".to_string(), name(cwd));
     dir_tree.insert("..".to_string(), name(cwd.parent().unwrap_or(cwd)));
 
+    if max_depth.map_or(false, |depth| depth <= 0) {
+        return dir_tree;
+    }
+
     if let Ok(entries) = std::fs::read_dir(cwd) {
         for entry in entries.flatten() {
             let path = entry.path();
-- 
2.43.0


From ca9ea4324258bc2c86d81d7f0c163bbcf2e77769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:41 +0000
Subject: [PATCH 22/33] fix: Tab completes names when the shell's directory
 cannot be entered

---
 src/bin.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/bin.rs b/src/bin.rs
index 16c41f7..8b52aee 100644
--- a/src/bin.rs
+++ b/src/bin.rs
@@ -176,13 +176,15 @@ impl Completer for DuneHelper {
                 + if segment.is_empty() { "/" } else { "" })
             .replace("/./", "/")
             .replace("//", "/");
-            let (pos, mut pairs) =
+            let (start, mut pairs) =
                 self.completer
                     .complete(path_str.as_str(), path_str.len(), ctx)?;
             for pair in &mut pairs {
-                pair.replacement = String::from(line) + &pair.replacement.replace(&path_str, "");
+                // The line up to the cursor, followed by the rest of the name.
+                let rest = pair.replacement.strip_prefix(&path_str[start..]);
+                pair.replacement = String::from(&line[..pos]) + rest.unwrap_or("");
             }
-            Ok((pos, pairs))
+            Ok((0, pairs))
         }
     }
 }
-- 
2.43.0


From 482a57629c85a970c9ca0f3db91d5f7ff8700ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:33 +0000
Subject: [PATCH 23/33] fix: a suggestion continues the word typed

---
 src/bin.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin.rs b/src/bin.rs
index 8b52aee..c01c099 100644
--- a/src/bin.rs
+++ b/src/bin.rs
@@ -340,8 +340,8 @@ impl Hinter for DuneHelper {
             return self.hinter.hint(line, pos, ctx);
         } else {
             for cmd in &cmds {
-                if cmd.contains(line) {
-                    return Some(cmd.trim_start_matches(line).to_string());
+                if let Some(rest) = cmd.strip_prefix(line) {
+                    return Some(rest.to_string());
                 }
             }
         }
-- 
2.43.0


From 2c0571bf279b6b59cfa8ed5b986d0bac86fed9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:52 +0000
Subject: [PATCH 24/33] fix: copying or moving what does not exist to itself is
 an error

---
 src/binary/init/fs_module.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/binary/init/fs_module.rs b/src/binary/init/fs_module.rs
index 0fbb47a..a3fbdf5 100644
--- a/src/binary/init/fs_module.rs
+++ b/src/binary/init/fs_module.rs
@@ -382,7 +382,14 @@ fn check_destination(dst: &Path) -> Result<(), Error> {
 /// Copy one path to another path.
 fn copy_path(src: &Path, dst: &Path) -> Result<(), Error> {
     if src == dst {
-        return Ok(());
+        // There is nothing to do, unless there is nothing to copy.
+        return match std::fs::metadata(src) {
+            Ok(_) => Ok(()),
+            Err(_) => Err(Error::CustomError(format!(
+                "could not copy {}",
+                src.display()
+            ))),
+        };
     }
 
     // If the destination exists, simply throw an error.
@@ -451,7 +458,14 @@ fn copy_path(src: &Path, dst: &Path) -> Result<(), Error> {
 /// Moves one path to another path.
 fn move_path(src: &Path, dst: &Path) -> Result<(), Error> {
     if src == dst {
-        return Ok(());
+        // There is nothing to do, unless there is nothing to move.
+        return match std::fs::symlink_metadata(src) {
+            Ok(_) => Ok(()),
+            Err(_) => Err(Error::CustomError(format!(
+                "could not move {}",
+                src.display()
+            ))),
+        };
     }
 
     // If the destination exists, simply throw an error.
-- 
2.43.0


From e41534ec4cd8b8d45ea7d544946fa1780834dfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:52 +0000
Subject: [PATCH 25/33] fix: a directory change in an argument reaches the
 function's body

---
 src/expr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/expr.rs b/src/expr.rs
index a3aa348..663db4e 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -590,15 +590,17 @@ impl Expression {
 
                     Self::Lambda(param, body, old_env) if args.len() == 1 => {
                         let mut new_env = old_env;
-                        new_env.set_cwd(env.get_cwd());
                         new_env.define(&param, args[0].clone().eval_mut(env, depth + 1)?);
+                        // The argument may have changed the directory.
+                        new_env.set_cwd(env.get_cwd());
                         return body.eval_mut(&mut new_env, depth + 1);
                     }
 
                     Self::Lambda(param, body, old_env) if args.len() > 1 => {
                         let mut new_env = old_env.clone();
-                        new_env.set_cwd(env.get_cwd());
                         new_env.define(&param, args[0].clone().eval_mut(env, depth + 1)?);
+                        // The argument may have changed the directory.
+                        new_env.set_cwd(env.get_cwd());
                         self = Self::Apply(
                             Box::new(body.eval_mut(&mut new_env, depth + 1)?),
                             args[1..].to_vec(),
-- 
2.43.0


From ffb774cdc9f773d5adce289f7dd722ae51c9b9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:10 +0000
Subject: [PATCH 26/33] fix: read-key gives function keys as
 console@keyboard@keys names them

---
 src/binary/init/console_module.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/binary/init/console_module.rs b/src/binary/init/console_module.rs
index a751325..bd7eb65 100644
--- a/src/binary/init/console_module.rs
+++ b/src/binary/init/console_module.rs
@@ -159,7 +159,12 @@ pub fn get() -> Expression {
                     Tab => Expression::String("\t".to_string()),
                     Esc => Expression::String("\x1b".to_string()),
                     Insert => Expression::String("\x1b[2~".to_string()),
-                    F(i) => Expression::String(format!("\x1b[{}~", i)),
+                    // The codes skip some numbers, as the `keys` below do.
+                    F(i @ 1..=5) => Expression::String(format!("\x1b[{}~", i + 10)),
+                    F(i @ 6..=10) => Expression::String(format!("\x1b[{}~", i + 11)),
+                    F(i @ 11..=14) => Expression::String(format!("\x1b[{}~", i + 12)),
+                    F(i @ 15..=16) => Expression::String(format!("\x1b[{}~", i + 13)),
+                    F(i @ 17..=20) => Expression::String(format!("\x1b[{}~", i + 14)),
                     Null => Expression::String("\x00".to_string()),
                     BackTab => Expression::String("\x1b[Z".to_string()),
                     _ => Expression::None
-- 
2.43.0


From 1cc4fcfbfe938c46c8105cea58de6d65fa7f1a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:58 +0000
Subject: [PATCH 27/33] fix: moving the cursor by nothing leaves it where it is

---
 src/binary/init/console_module.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/binary/init/console_module.rs b/src/binary/init/console_module.rs
index bd7eb65..0737c35 100644
--- a/src/binary/init/console_module.rs
+++ b/src/binary/init/console_module.rs
@@ -56,7 +56,7 @@ pub fn get() -> Expression {
                 super::check_exact_args_len("move-up", &args, 1)?;
                 let y = args[0].clone().eval(env)?;
                 if let Expression::Integer(y) = &y {
-                    print!("\x1b[{y}A", y = y);
+                    move_cursor(*y, 'A', 'B');
                 } else {
                     return Err(Error::CustomError(format!("expected first argument to be an integer, but got: `{:?}`", y)));
                 }
@@ -67,7 +67,7 @@ pub fn get() -> Expression {
                 super::check_exact_args_len("move-down", &args, 1)?;
                 let y = args[0].clone().eval(env)?;
                 if let Expression::Integer(y) = &y {
-                    print!("\x1b[{y}B", y = y);
+                    move_cursor(*y, 'B', 'A');
                 } else {
                     return Err(Error::CustomError(format!("expected first argument to be an integer, but got: `{:?}`", y)));
                 }
@@ -78,7 +78,7 @@ pub fn get() -> Expression {
                 super::check_exact_args_len("move-left", &args, 1)?;
                 let x = args[0].clone().eval(env)?;
                 if let Expression::Integer(x) = &x {
-                    print!("\x1b[{x}D", x = x);
+                    move_cursor(*x, 'D', 'C');
                 } else {
                     return Err(Error::CustomError(format!("expected first argument to be an integer, but got: `{:?}`", x)));
                 }
@@ -89,7 +89,7 @@ pub fn get() -> Expression {
                 super::check_exact_args_len("move-right", &args, 1)?;
                 let x = args[0].clone().eval(env)?;
                 if let Expression::Integer(x) = &x {
-                    print!("\x1b[{x}C", x = x);
+                    move_cursor(*x, 'C', 'D');
                 } else {
                     return Err(Error::CustomError(format!("expected first argument to be an integer, but got: `{:?}`", x)));
                 }
@@ -205,6 +205,14 @@ pub fn get() -> Expression {
     .into()
 }
 
+/// Move the cursor `n` places with `forward`, or with `back` if `n` is negative.
+/// A terminal takes a count of zero for one, so there is nothing to send for it.
+fn move_cursor(n: Int, forward: char, back: char) {
+    if n != 0 {
+        print!("\x1b[{}{}", n.unsigned_abs(), if n > 0 { forward } else { back });
+    }
+}
+
 fn width(_: Vec<Expression>, _: &mut Environment) -> Result<Expression, Error> {
     Ok(match terminal_size() {
         Some((Width(w), _)) => (w as Int).into(),
-- 
2.43.0


From 72f96446ce3507c27fb9ca533428646448a3e29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:58 +0000
Subject: [PATCH 28/33] fix: the title of the console is ended before what
 follows it

---
 src/binary/init/console_module.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/init/console_module.rs b/src/binary/init/console_module.rs
index 0737c35..228274f 100644
--- a/src/binary/init/console_module.rs
+++ b/src/binary/init/console_module.rs
@@ -253,7 +253,7 @@ fn write(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Err
 
 fn title(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Error> {
     super::check_exact_args_len("title", &args, 1)?;
-    print!("\x1b]2;{}\x1b[0m", args[0].eval(env)?);
+    print!("\x1b]2;{}\x07\x1b[0m", args[0].eval(env)?);
     Ok(Expression::None)
 }
 
-- 
2.43.0


From 53c9ab8c7bfe3db5414eca021d59db3d39252734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:15 +0000
Subject: [PATCH 29/33] fix: copying a directory fails when it cannot be told
 whether that is into itself

---
 src/binary/init/fs_module.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/binary/init/fs_module.rs b/src/binary/init/fs_module.rs
index a3fbdf5..46725e6 100644
--- a/src/binary/init/fs_module.rs
+++ b/src/binary/init/fs_module.rs
@@ -379,6 +379,20 @@ fn check_destination(dst: &Path) -> Result<(), Error> {
     }
 }
 
+/// Is this path, which need not exist, the directory or anything below it?
+fn is_inside(path: &Path, dir: &Path) -> Result<bool, Error> {
+    let fail = |p: &Path| Error::CustomError(format!("could not canonicalize path {}", p.display()));
+    let dir = dunce::canonicalize(dir).map_err(|_| fail(dir))?;
+    for parent in path.ancestors() {
+        match dunce::canonicalize(parent) {
+            Ok(parent) => return Ok(parent.starts_with(&dir)),
+            Err(e) if e.kind() == std::io::ErrorKind::NotFound => {}
+            Err(_) => return Err(fail(parent)),
+        }
+    }
+    Ok(false)
+}
+
 /// Copy one path to another path.
 fn copy_path(src: &Path, dst: &Path) -> Result<(), Error> {
     if src == dst {
@@ -398,16 +412,11 @@ fn copy_path(src: &Path, dst: &Path) -> Result<(), Error> {
     // If the source is a directory, recursively copy the directory.
     if src.is_dir() {
         // A directory cannot be copied into itself or anything below it.
-        if let (Ok(src), Some(parent)) = (
-            dunce::canonicalize(src),
-            dst.ancestors().find_map(|p| dunce::canonicalize(p).ok()),
-        ) {
-            if parent.starts_with(&src) {
-                return Err(Error::CustomError(format!(
-                    "cannot copy directory {} into itself",
-                    src.display()
-                )));
-            }
+        if is_inside(dst, src)? {
+            return Err(Error::CustomError(format!(
+                "cannot copy directory {} into itself",
+                src.display()
+            )));
         }
 
         // Create the destination directory and all of its parents.
-- 
2.43.0


From 85ac25b9a4c3e6f9ae1dfc08ef18082a8f636921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:15 +0000
Subject: [PATCH 30/33] fix: a list under a long key can be shown in a narrow
 window

---
 src/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index 663db4e..2cfba6e 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -304,7 +304,7 @@ impl fmt::Display for Expression {
                             t.add_row(row!(key, format!("{:specified_width$}", val)));
                         }
                         Self::List(_) => {
-                            let w = specified_width - key.len() - 3;
+                            let w = specified_width.saturating_sub(key.len() + 3);
                             let formatted = format!("{:w$}", val);
                             t.add_row(row!(key, textwrap::fill(&formatted, w),));
                         }
-- 
2.43.0


From 6db6f4f1cf5af6e43f2f3a57decca66200894aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:23 +0000
Subject: [PATCH 31/33] fix: Tab completes the path before the cursor in a
 directory that cannot be entered

---
 src/bin.rs | 52 +++++++++++++---------------------------------------
 1 file changed, 13 insertions(+), 39 deletions(-)

diff --git a/src/bin.rs b/src/bin.rs
index c01c099..6443c2d 100644
--- a/src/bin.rs
+++ b/src/bin.rs
@@ -140,51 +140,25 @@ impl Completer for DuneHelper {
         pos: usize,
         ctx: &Context<'_>,
     ) -> Result<(usize, Vec<PairComplete>), ReadlineError> {
-        let mut path = PathBuf::from(self.env.get_cwd());
-        if std::env::set_current_dir(&path).is_ok() {
+        let cwd = self.env.get_cwd();
+        if std::env::set_current_dir(&cwd).is_ok() {
             self.completer.complete(line, pos, ctx)
         } else {
-            let mut segment = String::new();
-
-            if !line.is_empty() {
-                for (i, ch) in line.chars().enumerate() {
-                    if ch.is_whitespace()
-                        || ch == ';'
-                        || ch == '\''
-                        || ch == '('
-                        || ch == ')'
-                        || ch == '{'
-                        || ch == '}'
-                        || ch == '"'
-                    {
-                        segment = String::new();
-                    } else {
-                        segment.push(ch);
-                    }
-
-                    if i == pos {
-                        break;
-                    }
-                }
-
-                if !segment.is_empty() {
-                    path.push(segment.clone());
-                }
+            // The directory cannot be entered, so complete the path before the cursor
+            // as one which starts with the name of the directory.
+            let (start, pairs) = self.completer.complete(line, pos, ctx)?;
+            if line[start..pos].starts_with(|ch| ch == '/' || ch == '~') {
+                return Ok((start, pairs));
             }
 
-            let path_str = (path.into_os_string().into_string().unwrap()
-                + if segment.is_empty() { "/" } else { "" })
-            .replace("/./", "/")
-            .replace("//", "/");
-            let (start, mut pairs) =
-                self.completer
-                    .complete(path_str.as_str(), path_str.len(), ctx)?;
+            let prefix = format!("{}/", cwd.trim_end_matches('/'));
+            let line = format!("{}{}{}", &line[..start], prefix, &line[start..pos]);
+            let (_, mut pairs) = self.completer.complete(&line, line.len(), ctx)?;
+            pairs.retain(|pair| pair.replacement.starts_with(&prefix));
             for pair in &mut pairs {
-                // The line up to the cursor, followed by the rest of the name.
-                let rest = pair.replacement.strip_prefix(&path_str[start..]);
-                pair.replacement = String::from(&line[..pos]) + rest.unwrap_or("");
+                pair.replacement.replace_range(..prefix.len(), "");
             }
-            Ok((0, pairs))
+            Ok((start, pairs))
         }
     }
 }
-- 
2.43.0


From 7eab749f4ff3433aa2932c3c5e4af91f901db212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:58 +0000
Subject: [PATCH 32/33] fix: sys@cd changes only to a directory that can be
 entered

---
 src/binary/init/os_module.rs  |  5 ++++-
 src/binary/init/sys_module.rs | 18 +-----------------
 2 files changed, 5 insertions(+), 18 deletions(-)

diff --git a/src/binary/init/os_module.rs b/src/binary/init/os_module.rs
index 63f077f..374090d 100644
--- a/src/binary/init/os_module.rs
+++ b/src/binary/init/os_module.rs
@@ -31,7 +31,10 @@ pub fn get() -> Expression {
     .into()
 }
 
-fn cd(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, dune::Error> {
+pub(super) fn cd(
+    args: Vec<Expression>,
+    env: &mut Environment,
+) -> Result<Expression, dune::Error> {
     super::check_exact_args_len("cd", &args, 1)?;
 
     match args[0].eval(env)? {
diff --git a/src/binary/init/sys_module.rs b/src/binary/init/sys_module.rs
index 3a7f88d..50b0552 100644
--- a/src/binary/init/sys_module.rs
+++ b/src/binary/init/sys_module.rs
@@ -50,23 +50,7 @@ pub fn get() -> Expression {
         }, "evaluate a file in the current environment"),
 
         // Change the current working directory.
-        String::from("cd") => Expression::builtin("cd", |args, env| {
-            super::check_exact_args_len("cd", &args, 1)?;
-            let cwd = PathBuf::from(env.get_cwd());
-            let path = cwd.join(args[0].eval(env)?.to_string());
-
-            if let Ok(canon_path) = dunce::canonicalize(&path) {
-                match canon_path.to_str() {
-                    Some(cwd) => {
-                        env.set_cwd(cwd);
-                        Ok(Expression::None)
-                    }
-                    None => Err(Error::CustomError(format!("could not canonicalize path {}", path.display())))
-                }
-            } else {
-                Err(Error::CustomError(format!("could not canonicalize path {}", path.display())))
-            }
-        }, "change the current working directory"),
+        String::from("cd") => Expression::builtin("cd", super::os_module::cd, "change the current working directory"),
 
         // Get the current working directory.
         String::from("cwd") => Expression::builtin("cwd", |_args, env| {
-- 
2.43.0


From 9a8f493ab2700f846934f107004d395c131ad1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:35 +0000
Subject: [PATCH 33/33] fix: fs@tree does not follow a symbolic link back to a
 directory it is in

---
 src/binary/init/fs_module.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/binary/init/fs_module.rs b/src/binary/init/fs_module.rs
index 46725e6..e7ba8a1 100644
--- a/src/binary/init/fs_module.rs
+++ b/src/binary/init/fs_module.rs
@@ -8,7 +8,11 @@ use super::Int;
 use common_macros::b_tree_map;
 use dune::{Environment, Error, Expression};
 
-fn get_dir_tree(cwd: &Path, max_depth: Option<Int>) -> BTreeMap<String, Expression> {
+fn get_dir_tree(
+    cwd: &Path,
+    max_depth: Option<Int>,
+    parents: &mut Vec<PathBuf>,
+) -> BTreeMap<String, Expression> {
     let mut dir_tree = b_tree_map! {};
 
     let name = |path: &Path| Expression::from(path.to_string_lossy().to_string());
@@ -19,15 +23,19 @@ fn get_dir_tree(cwd: &Path, max_depth: Option<Int>) -> BTreeMap<String, Expressi
         return dir_tree;
     }
 
+    // A symbolic link back to one of the parents is not followed: the tree would not end.
+    parents.push(dunce::canonicalize(cwd).unwrap_or_else(|_| cwd.to_path_buf()));
+
     if let Ok(entries) = std::fs::read_dir(cwd) {
         for entry in entries.flatten() {
             let path = entry.path();
             let file_name_osstring = entry.file_name();
             if let Ok(file_name) = file_name_osstring.into_string() {
-                if path.is_dir() {
+                let is_parent = || dunce::canonicalize(&path).map_or(false, |p| parents.contains(&p));
+                if path.is_dir() && !is_parent() {
                     dir_tree.insert(
                         file_name,
-                        Expression::from(get_dir_tree(&path, max_depth.map(|d| d - 1))),
+                        Expression::from(get_dir_tree(&path, max_depth.map(|d| d - 1), parents)),
                     );
                 } else {
                     dir_tree.insert(
@@ -39,6 +47,7 @@ fn get_dir_tree(cwd: &Path, max_depth: Option<Int>) -> BTreeMap<String, Expressi
         }
     }
 
+    parents.pop();
     dir_tree
 }
 
@@ -106,7 +115,7 @@ pub fn get(env: &mut Environment) -> Expression {
             }
 
             // Get the directory tree
-            let dir_tree = get_dir_tree(&cwd, max_depth);
+            let dir_tree = get_dir_tree(&cwd, max_depth, &mut vec![]);
             // Return the directory tree
             Ok(dir_tree.into())
         }, "get the directory tree as a nested map, with a max depth and a path"),
-- 
2.43.0

