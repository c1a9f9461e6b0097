From 9f19ea75a421492645f5d6947b850f2da051e421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:02 +0000
Subject: [PATCH 01/54] fix: consume recipe output when it is parsed as tags or
 configuration

The reader over the captured output never advanced, so any get_tags or
configure output larger than the 4096 bytes input buffer was parsed as
endless repetitions of its first 4096 bytes.
---
 core/db/compiler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/db/compiler.cpp b/core/db/compiler.cpp
index 7aa9e8f..fe3c618 100644
--- a/core/db/compiler.cpp
+++ b/core/db/compiler.cpp
@@ -47,6 +47,7 @@ namespace
 		auto const bytes_left = std::size(reader.buffer.get()) - reader.read_offset;
 		auto const bytes_to_read = std::min(n, bytes_left);
 		memcpy(output, reader.buffer.get().data() + reader.read_offset, bytes_to_read);
+		reader.read_offset += bytes_to_read;
 
 		return bytes_to_read;
 	}
-- 
2.43.0


From 89ace952c18560ebc33c14f15368ba740b8df15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:02 +0000
Subject: [PATCH 02/54] fix: send end-of-file to the standard input of child
 processes

The write end of the stdin pipe stayed open until the child had been
waited for, so a child that read its standard input until end-of-file
never terminated, and the build hung.
---
 core/exec/execve.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/exec/execve.cpp b/core/exec/execve.cpp
index a634dd4..f2e9e52 100644
--- a/core/exec/execve.cpp
+++ b/core/exec/execve.cpp
@@ -132,12 +132,15 @@ namespace
 
 
 	Maike::Exec::ExitStatus communicateWith(
-	   pid_t pid, Maike::Io::Redirector const& io_redirector, int stdin, int stdout, int stderr)
+	   pid_t pid, Maike::Io::Redirector const& io_redirector, Pipe& stdin, int stdout, int stderr)
 	{
 		signal(SIGPIPE, SIG_IGN);
 		std::thread stderr_proc{read, io_redirector.handle(), stderr, io_redirector.stderr()};
 		std::thread stdout_proc{read, io_redirector.handle(), stdout, io_redirector.stdout()};
-		write(io_redirector.handle(), stdin, io_redirector.stdin());
+		write(io_redirector.handle(), stdin.writeEnd(), io_redirector.stdin());
+		// NOTE: There is no more data to send. Without end-of-file, a child that reads all of its
+		// standard input would never terminate.
+		stdin.closeWriteEnd();
 
 		int status;
 		if(::waitpid(pid, &status, 0) == -1) { abort(); }
@@ -224,7 +227,7 @@ Maike::Exec::ExitStatus Maike::Exec::execve(fs::path const& executable,
 	stdout.closeWriteEnd();
 	stderr.closeWriteEnd();
 
-	return communicateWith(pid, io_redirector, stdin.writeEnd(), stdout.readEnd(), stderr.readEnd());
+	return communicateWith(pid, io_redirector, stdin, stdout.readEnd(), stderr.readEnd());
 }
 
 namespace
-- 
2.43.0


From 0420a3c1280f9e5b4f7a0ef9fd034a9a4444db00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:02 +0000
Subject: [PATCH 03/54] fix: do not let child processes inherit pipes of each
 other

Pipes were created without FD_CLOEXEC, and were therefore inherited by
every child that another thread happened to launch. A child could not see
end-of-file, or have its output collected, until unrelated children had
terminated.
---
 core/exec/execve.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/exec/execve.cpp b/core/exec/execve.cpp
index f2e9e52..2180db4 100644
--- a/core/exec/execve.cpp
+++ b/core/exec/execve.cpp
@@ -27,7 +27,9 @@ namespace
 		Pipe()
 		{
 			int fds[2];
-			if(pipe(fds) == -1) { throw "Failed to create pipe"; }
+			// NOTE: Children are created concurrently. Set FD_CLOEXEC atomically so that a pipe is not
+			// inherited by any other child.
+			if(pipe2(fds, O_CLOEXEC) == -1) { throw "Failed to create pipe"; }
 			m_read_end = fds[0];
 			m_write_end = fds[1];
 		}
-- 
2.43.0


From 09319215210248949045b13bbd7be2a08c5e05dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:02 +0000
Subject: [PATCH 04/54] fix: report failure to create a pipe as an ordinary
 error

The string literal that was thrown is not a std::exception, so running out
of file descriptors terminated the process without any message.
---
 core/exec/execve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/exec/execve.cpp b/core/exec/execve.cpp
index 2180db4..12351ed 100644
--- a/core/exec/execve.cpp
+++ b/core/exec/execve.cpp
@@ -29,7 +29,7 @@ namespace
 			int fds[2];
 			// NOTE: Children are created concurrently. Set FD_CLOEXEC atomically so that a pipe is not
 			// inherited by any other child.
-			if(pipe2(fds, O_CLOEXEC) == -1) { throw "Failed to create pipe"; }
+			if(pipe2(fds, O_CLOEXEC) == -1) { throw std::runtime_error{"Failed to create pipe"}; }
 			m_read_end = fds[0];
 			m_write_end = fds[1];
 		}
-- 
2.43.0


From 5ee47c86ba5bf54bfef0a943ea03955e58bf3b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:02 +0000
Subject: [PATCH 05/54] fix: reap a child process that could not be launched

---
 core/exec/execve.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/exec/execve.cpp b/core/exec/execve.cpp
index 12351ed..9c07f98 100644
--- a/core/exec/execve.cpp
+++ b/core/exec/execve.cpp
@@ -217,6 +217,8 @@ Maike::Exec::ExitStatus Maike::Exec::execve(fs::path const& executable,
 	uint32_t val{};
 	if(auto n = exec_err.read(&val, sizeof(val)); n == sizeof(val))
 	{
+		int status;
+		(void)::waitpid(pid, &status, 0);
 		errno = val;
 		std::string msg{"Failed to launch '"};
 		msg += executable;
-- 
2.43.0


From 8a5cb944dec36851bb6aa24963d53598670401d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:37 +0000
Subject: [PATCH 06/54] fix: only take the argument of a complete #include
 directive as an include

The newline that ends a directive without arguments was skipped, so that an
#include on the next line was lost, any directive with a quoted argument
(#error, #pragma) was treated as an include, and the text of an unterminated
include was prepended to the next one.
---
 .../cxx/source_file_loader.cpp                   | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/core/source_file_info_loaders/cxx/source_file_loader.cpp b/core/source_file_info_loaders/cxx/source_file_loader.cpp
index 5a8dfee..a030660 100644
--- a/core/source_file_info_loaders/cxx/source_file_loader.cpp
+++ b/core/source_file_info_loaders/cxx/source_file_loader.cpp
@@ -158,7 +158,8 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 				break;
 
 			case State::PrePreprocessorDirective:
-				if(!(ch_in >= '\0' && ch_in <= ' '))
+				if(ch_in == '\n') { state = State::Newline; }
+				else if(!(ch_in >= '\0' && ch_in <= ' '))
 				{
 					preproc_directive += ch_in;
 					state = State::PreprocessorDirective;
@@ -168,11 +169,14 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 			case State::PreprocessorDirective:
 				switch(ch_in)
 				{
+					case '\n': state = State::Newline; break;
 					case '<':
 						state = preproc_directive == "include" ? State::IncludeSystem : State::SkipLine;
+						include_path.clear();
 						break;
 					case '"':
 						state = preproc_directive == "include" ? State::IncludeProject : State::SkipLine;
+						include_path.clear();
 						break;
 					default:
 						if(ch_in >= '\0' && ch_in <= ' ') { state = State::PreprocessorDirectivePreArg; }
@@ -189,9 +193,15 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 				{
 					case '\n': state = State::Newline; break;
 
-					case '"': state = State::IncludeProject; break;
+					case '"':
+						state = preproc_directive == "include" ? State::IncludeProject : State::SkipLine;
+						include_path.clear();
+						break;
 
-					case '<': state = State::IncludeSystem; break;
+					case '<':
+						state = preproc_directive == "include" ? State::IncludeSystem : State::SkipLine;
+						include_path.clear();
+						break;
 
 					default:
 						if(!(ch_in >= '\0' && ch_in <= ' '))
-- 
2.43.0


From cce7494f6e5ca27b13a877f902d8d7602b68121d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:36 +0000
Subject: [PATCH 07/54] fix: recognise C++ comments the way a compiler does

A /* within a line comment opened a comment block, **/ did not end one, and
the rest of a directive or of a line that begins with a comment was ignored.
In all cases, includes and tags after the comment could be lost.
---
 .../cxx/source_file_loader.cpp                | 48 +++++++++++++++++--
 1 file changed, 43 insertions(+), 5 deletions(-)

diff --git a/core/source_file_info_loaders/cxx/source_file_loader.cpp b/core/source_file_info_loaders/cxx/source_file_loader.cpp
index a030660..d193023 100644
--- a/core/source_file_info_loaders/cxx/source_file_loader.cpp
+++ b/core/source_file_info_loaders/cxx/source_file_loader.cpp
@@ -30,6 +30,7 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 	{
 		Newline,
 		CommentFirst,
+		LineComment,
 		SkipLine,
 		CommentBlock,
 		CommentBlockPreEnd,
@@ -44,6 +45,7 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 		IncludeSystem
 	};
 	auto state = State::Newline;
+	auto state_after_comment = State::Newline;
 	std::string raw_string_tag;
 	std::string raw_string_end_mark;
 	std::string preproc_directive;
@@ -59,7 +61,10 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 			case State::Newline:
 				switch(ch_in)
 				{
-					case '/': state = State::CommentFirst; break;
+					case '/':
+						state_after_comment = State::Newline;
+						state = State::CommentFirst;
+						break;
 
 					case 'R':
 						state = State::RawStringBegin;
@@ -82,12 +87,17 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 				switch(ch_in)
 				{
 					case '*': state = State::CommentBlock; break;
+					case '/': state = State::LineComment; break;
 					case '\n': state = State::Newline; break;
 
 					default: state = State::SkipLine;
 				}
 				break;
 
+			case State::LineComment:
+				if(ch_in == '\n') { state = State::Newline; }
+				break;
+
 			case State::SkipLine:
 				switch(ch_in)
 				{
@@ -97,7 +107,10 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 						raw_string_end_mark.clear();
 						state = State::RawStringBegin;
 						break;
-					case '/': state = State::CommentFirst; break;
+					case '/':
+						state_after_comment = State::SkipLine;
+						state = State::CommentFirst;
+						break;
 					default: break;
 				}
 				break;
@@ -112,8 +125,8 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 			case State::CommentBlockPreEnd:
 				switch(ch_in)
 				{
-					case '/': state = State::SkipLine; break;
-					case '\n': state = State::CommentBlock; break;
+					case '/': state = state_after_comment; break;
+					case '*': break;
 					default: state = State::CommentBlock; break;
 				}
 				break;
@@ -159,6 +172,11 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 
 			case State::PrePreprocessorDirective:
 				if(ch_in == '\n') { state = State::Newline; }
+				else if(ch_in == '/')
+				{
+					state_after_comment = State::PrePreprocessorDirective;
+					state = State::CommentFirst;
+				}
 				else if(!(ch_in >= '\0' && ch_in <= ' '))
 				{
 					preproc_directive += ch_in;
@@ -170,6 +188,10 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 				switch(ch_in)
 				{
 					case '\n': state = State::Newline; break;
+					case '/':
+						state_after_comment = State::PreprocessorDirectivePreArg;
+						state = State::CommentFirst;
+						break;
 					case '<':
 						state = preproc_directive == "include" ? State::IncludeSystem : State::SkipLine;
 						include_path.clear();
@@ -193,6 +215,11 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 				{
 					case '\n': state = State::Newline; break;
 
+					case '/':
+						state_after_comment = State::PreprocessorDirectivePreArg;
+						state = State::CommentFirst;
+						break;
+
 					case '"':
 						state = preproc_directive == "include" ? State::IncludeProject : State::SkipLine;
 						include_path.clear();
@@ -265,6 +292,7 @@ void Cxx::SourceFileLoader::filterInput(
 		CommentFirst,
 		TagSymbol,
 		Tag,
+		LineComment,
 		SkipLine,
 		CommentBlock,
 		CommentBlockPreEnd,
@@ -339,7 +367,15 @@ void Cxx::SourceFileLoader::filterInput(
 						state = State::Newline;
 						tags.putchar('\n');
 						break;
-					default: state = State::SkipLine; break;
+					default: state = State::LineComment; break;
+				}
+				break;
+
+			case State::LineComment:
+				if(ch_in == '\n')
+				{
+					state = State::Newline;
+					tags.putchar('\n');
 				}
 				break;
 
@@ -377,6 +413,7 @@ void Cxx::SourceFileLoader::filterInput(
 				switch(ch_in)
 				{
 					case '/': state = State::SkipLine; break;
+					case '*': break;
 					case '\n':
 						state = State::CommentBlock;
 						tags.putchar('\n');
@@ -389,6 +426,7 @@ void Cxx::SourceFileLoader::filterInput(
 				switch(ch_in)
 				{
 					case '*': state = State::CommentBlock; break;
+					case '/': state = State::LineComment; break;
 					case '\n':
 						state = State::Newline;
 						tags.putchar('\n');
-- 
2.43.0


From 6af9c34de3544d29e36c191db916fdde11d39bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:37 +0000
Subject: [PATCH 08/54] fix: find the end of a raw string literal after other
 closing parentheses

After ')' followed by something else on the same line, the text was kept as a
prefix of the next candidate, so that the literal never ended and includes and
tags after it were lost.
---
 .../cxx/source_file_loader.cpp                     | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/core/source_file_info_loaders/cxx/source_file_loader.cpp b/core/source_file_info_loaders/cxx/source_file_loader.cpp
index d193023..5dda9b2 100644
--- a/core/source_file_info_loaders/cxx/source_file_loader.cpp
+++ b/core/source_file_info_loaders/cxx/source_file_loader.cpp
@@ -152,7 +152,10 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 			case State::RawString:
 				switch(ch_in)
 				{
-					case ')': state = State::RawStringPreEnd; break;
+					case ')':
+						raw_string_end_mark.clear();
+						state = State::RawStringPreEnd;
+						break;
 				}
 				break;
 
@@ -164,6 +167,8 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 						raw_string_end_mark.clear();
 						break;
 
+					case ')': raw_string_end_mark.clear(); break;
+
 					case '\n': state = State::RawString; break;
 
 					default: raw_string_end_mark += ch_in;
@@ -463,7 +468,10 @@ void Cxx::SourceFileLoader::filterInput(
 				switch(ch_in)
 				{
 					case '\n': tags.putchar('\n'); break;
-					case ')': state = State::RawStringPreEnd; break;
+					case ')':
+						raw_string_end_mark.clear();
+						state = State::RawStringPreEnd;
+						break;
 				}
 				break;
 
@@ -475,6 +483,8 @@ void Cxx::SourceFileLoader::filterInput(
 						raw_string_end_mark.clear();
 						break;
 
+					case ')': raw_string_end_mark.clear(); break;
+
 					case '\n':
 						state = State::RawString;
 						tags.putchar('\n');
-- 
2.43.0


From 1688ca5e1aa20e85930b910bea662ac47bd0b3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:51 +0000
Subject: [PATCH 09/54] fix: do not look for comments and raw strings within
 string literals

A string or character literal that contains /* or a quotation mark, or that
ends with the letter R, made the rest of the file a comment or a raw string, so
that its includes and tags were lost.
---
 .../cxx/source_file_loader.cpp                | 133 +++++++++++++++++-
 1 file changed, 129 insertions(+), 4 deletions(-)

diff --git a/core/source_file_info_loaders/cxx/source_file_loader.cpp b/core/source_file_info_loaders/cxx/source_file_loader.cpp
index 5dda9b2..d7b248d 100644
--- a/core/source_file_info_loaders/cxx/source_file_loader.cpp
+++ b/core/source_file_info_loaders/cxx/source_file_loader.cpp
@@ -21,6 +21,20 @@ namespace
 	}
 }
 
+namespace
+{
+	bool is_identifier_char(int ch)
+	{
+		return (ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z') || (ch >= '0' && ch <= '9')
+		       || ch == '_';
+	}
+
+	bool is_encoding_prefix(int ch)
+	{
+		return ch == 'u' || ch == 'U' || ch == 'L' || ch == '8';
+	}
+}
+
 std::vector<Maike::Db::Dependency>
 Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 {
@@ -34,6 +48,10 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 		SkipLine,
 		CommentBlock,
 		CommentBlockPreEnd,
+		StringLiteral,
+		StringLiteralEscape,
+		CharLiteral,
+		CharLiteralEscape,
 		RawStringBegin,
 		RawStringTag,
 		RawString,
@@ -51,9 +69,11 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 	std::string preproc_directive;
 	std::string include_path;
 
+	int ch_in = '\n';
 	while(true)
 	{
-		auto ch_in = input_buff.getchar();
+		auto const ch_prev = ch_in;
+		ch_in = input_buff.getchar();
 		if(ch_in == -1) { return deps; }
 
 		switch(state)
@@ -66,6 +86,10 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 						state = State::CommentFirst;
 						break;
 
+					case '"': state = State::StringLiteral; break;
+
+					case '\'': state = State::CharLiteral; break;
+
 					case 'R':
 						state = State::RawStringBegin;
 						raw_string_tag.clear();
@@ -102,7 +126,13 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 				switch(ch_in)
 				{
 					case '\n': state = State::Newline; break;
+					case '"': state = State::StringLiteral; break;
+					case '\'':
+						// NOTE: After a digit or a letter, ' is a digit separator
+						if(!is_identifier_char(ch_prev)) { state = State::CharLiteral; }
+						break;
 					case 'R':
+						if(is_identifier_char(ch_prev) && !is_encoding_prefix(ch_prev)) { break; }
 						raw_string_tag.clear();
 						raw_string_end_mark.clear();
 						state = State::RawStringBegin;
@@ -115,6 +145,34 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 				}
 				break;
 
+			case State::StringLiteral:
+				switch(ch_in)
+				{
+					case '"': state = State::SkipLine; break;
+					case '\\': state = State::StringLiteralEscape; break;
+					case '\n': state = State::Newline; break;
+					default: break;
+				}
+				break;
+
+			case State::StringLiteralEscape:
+				state = State::StringLiteral;
+				break;
+
+			case State::CharLiteral:
+				switch(ch_in)
+				{
+					case '\'': state = State::SkipLine; break;
+					case '\\': state = State::CharLiteralEscape; break;
+					case '\n': state = State::Newline; break;
+					default: break;
+				}
+				break;
+
+			case State::CharLiteralEscape:
+				state = State::CharLiteral;
+				break;
+
 			case State::CommentBlock:
 				switch(ch_in)
 				{
@@ -136,6 +194,10 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 				{
 					case '"': state = State::RawStringTag; break;
 					case '\n': state = State::Newline; break;
+					case '/':
+						state_after_comment = State::SkipLine;
+						state = State::CommentFirst;
+						break;
 					default: state = State::SkipLine;
 				}
 				break;
@@ -202,7 +264,7 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 						include_path.clear();
 						break;
 					case '"':
-						state = preproc_directive == "include" ? State::IncludeProject : State::SkipLine;
+						state = preproc_directive == "include" ? State::IncludeProject : State::StringLiteral;
 						include_path.clear();
 						break;
 					default:
@@ -226,7 +288,7 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 						break;
 
 					case '"':
-						state = preproc_directive == "include" ? State::IncludeProject : State::SkipLine;
+						state = preproc_directive == "include" ? State::IncludeProject : State::StringLiteral;
 						include_path.clear();
 						break;
 
@@ -235,6 +297,14 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 						include_path.clear();
 						break;
 
+					case '\'': state = State::CharLiteral; break;
+
+					case 'R':
+						raw_string_tag.clear();
+						raw_string_end_mark.clear();
+						state = State::RawStringBegin;
+						break;
+
 					default:
 						if(!(ch_in >= '\0' && ch_in <= ' '))
 						{
@@ -302,6 +372,10 @@ void Cxx::SourceFileLoader::filterInput(
 		CommentBlock,
 		CommentBlockPreEnd,
 		CommentFirstSkipLine,
+		StringLiteral,
+		StringLiteralEscape,
+		CharLiteral,
+		CharLiteralEscape,
 		RawStringBegin,
 		RawStringTag,
 		RawString,
@@ -310,9 +384,11 @@ void Cxx::SourceFileLoader::filterInput(
 	auto state = State::Newline;
 	std::string raw_string_tag;
 	std::string raw_string_end_mark;
+	int ch_in = '\n';
 	while(true)
 	{
-		auto ch_in = input_buff.getchar();
+		auto const ch_prev = ch_in;
+		ch_in = input_buff.getchar();
 		if(ch_in == -1) { return; }
 
 		// For simplicity, copy raw stream to source output
@@ -328,6 +404,10 @@ void Cxx::SourceFileLoader::filterInput(
 						tags.putchar(' ');
 						break;
 
+					case '"': state = State::StringLiteral; break;
+
+					case '\'': state = State::CharLiteral; break;
+
 					case 'R':
 						state = State::RawStringBegin;
 						raw_string_tag.clear();
@@ -396,7 +476,13 @@ void Cxx::SourceFileLoader::filterInput(
 						state = State::Newline;
 						tags.putchar('\n');
 						break;
+					case '"': state = State::StringLiteral; break;
+					case '\'':
+						// NOTE: After a digit or a letter, ' is a digit separator
+						if(!is_identifier_char(ch_prev)) { state = State::CharLiteral; }
+						break;
 					case 'R':
+						if(is_identifier_char(ch_prev) && !is_encoding_prefix(ch_prev)) { break; }
 						raw_string_tag.clear();
 						raw_string_end_mark.clear();
 						state = State::RawStringBegin;
@@ -406,6 +492,42 @@ void Cxx::SourceFileLoader::filterInput(
 				}
 				break;
 
+			case State::StringLiteral:
+				switch(ch_in)
+				{
+					case '"': state = State::SkipLine; break;
+					case '\\': state = State::StringLiteralEscape; break;
+					case '\n':
+						state = State::Newline;
+						tags.putchar('\n');
+						break;
+					default: break;
+				}
+				break;
+
+			case State::StringLiteralEscape:
+				if(ch_in == '\n') { tags.putchar('\n'); }
+				state = State::StringLiteral;
+				break;
+
+			case State::CharLiteral:
+				switch(ch_in)
+				{
+					case '\'': state = State::SkipLine; break;
+					case '\\': state = State::CharLiteralEscape; break;
+					case '\n':
+						state = State::Newline;
+						tags.putchar('\n');
+						break;
+					default: break;
+				}
+				break;
+
+			case State::CharLiteralEscape:
+				if(ch_in == '\n') { tags.putchar('\n'); }
+				state = State::CharLiteral;
+				break;
+
 			case State::CommentBlock:
 				switch(ch_in)
 				{
@@ -448,6 +570,9 @@ void Cxx::SourceFileLoader::filterInput(
 						state = State::Newline;
 						tags.putchar('\n');
 						break;
+					case '/':
+						state = State::CommentFirstSkipLine;
+						break;
 					default: state = State::SkipLine;
 				}
 				break;
-- 
2.43.0


From e9078d82a3b668fc01b2f432d91e5bb0bf3b2807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:32 +0000
Subject: [PATCH 10/54] fix: do not wait for tasks that depend on one that
 could not be started

A task that ended with an exception, for example because its recipe could not
be launched, kept the status Pending. If any other task depended on it, the
build never finished.
---
 core/db/task_list.cpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/core/db/task_list.cpp b/core/db/task_list.cpp
index b53f714..1036215 100644
--- a/core/db/task_list.cpp
+++ b/core/db/task_list.cpp
@@ -95,21 +95,28 @@ size_t Maike::Db::TaskList::process(Sched::ThreadPool& workers,
 				                 task_results = m_results.get(),
 				                 at_exit = ScopeExitHandler{[&e]() { e.set(); }}]() mutable {
 					auto const index = task.node().id().value();
-					if(auto result = task.runIfNecessary(force_recompilation, invoker); result)
+					try
 					{
-						auto const build_failed = failed(*result);
-						compilation_log.write(task, *result);
-						if(build_failed)
+						if(auto result = task.runIfNecessary(force_recompilation, invoker); result)
 						{
-							std::string msg{task.node().path()};
-							msg += ": Compilation failed";
-							task_results[index] = TaskResult::Failure;
-							throw std::runtime_error{std::move(msg)};
+							auto const build_failed = failed(*result);
+							compilation_log.write(task, *result);
+							if(build_failed)
+							{
+								std::string msg{task.node().path()};
+								msg += ": Compilation failed";
+								throw std::runtime_error{std::move(msg)};
+							}
+						}
+						else
+						{
+							compilation_log.write(task);
 						}
 					}
-					else
+					catch(...)
 					{
-						compilation_log.write(task);
+						task_results[index] = TaskResult::Failure;
+						throw;
 					}
 					task_results[index] = TaskResult::Success;
 				});
-- 
2.43.0


From 5f831ab2e233e05b49b7687af3330d94fde18aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:32 +0000
Subject: [PATCH 11/54] fix: quote single quotes and backslashes correctly in
 printed commands

Within single quotes, a shell takes a backslash literally. A printed command
with a single quote or backslash in an argument was not the command that is
executed.
---
 core/exec/command.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/exec/command.cpp b/core/exec/command.cpp
index bf14826..b99efd2 100644
--- a/core/exec/command.cpp
+++ b/core/exec/command.cpp
@@ -12,8 +12,12 @@ namespace
 	{
 		std::string ret{"'"};
 		std::for_each(std::begin(str), std::end(str), [&ret](auto ch_in) {
-			if(ch_in == '\\' || ch_in == '\'') { ret += '\\'; }
-			ret += ch_in;
+			// NOTE: Within single quotes, no character is special, and ' cannot be escaped
+			if(ch_in == '\'') { ret += "'\\''"; }
+			else
+			{
+				ret += ch_in;
+			}
 		});
 		ret += "'";
 
-- 
2.43.0


From e51f498ab71c573b15d9da8bbe7cbe55b1e6e010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:32 +0000
Subject: [PATCH 12/54] fix: do not drop the last chunk of JSON data

A document that ends without a closing bracket or brace was taken as empty,
instead of being reported as invalid.
---
 core/key_value_store/json_handle.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/core/key_value_store/json_handle.cpp b/core/key_value_store/json_handle.cpp
index eaf5906..1aaa53f 100644
--- a/core/key_value_store/json_handle.cpp
+++ b/core/key_value_store/json_handle.cpp
@@ -31,18 +31,24 @@ namespace
 	class ReadHelper
 	{
 	public:
-		explicit ReadHelper(Maike::Io::Reader reader): m_buffer{reader}, m_has_data{false}
+		explicit ReadHelper(Maike::Io::Reader reader): m_buffer{reader}, m_has_data{false}, m_eof{false}
 		{
 		}
 
 		size_t fetch(std::byte* buffer, size_t n)
 		{
+			if(m_eof) { return 0; }
+
 			size_t n_written = 0;
 			auto const buffer_init = buffer;
 			while(n_written != n)
 			{
 				auto ch_in = m_buffer.getchar();
-				if(ch_in == -1) { return 0; }
+				if(ch_in == -1)
+				{
+					m_eof = true;
+					break;
+				}
 
 				*buffer = static_cast<std::byte>(ch_in);
 				++buffer;
@@ -64,6 +70,7 @@ namespace
 	private:
 		Maike::Io::InputBuffer<Maike::Io::Reader> m_buffer;
 		bool m_has_data;
+		bool m_eof;
 	};
 }
 
-- 
2.43.0


From b6249c367d3b43b68b876affe4c8b654f4bb3922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:32 +0000
Subject: [PATCH 13/54] fix: depend on the inherited recipe when only the
 compiler config is overridden

A source file with a compiler tag that does not name a recipe is built with the
recipe of its loader, but was not rebuilt when that recipe changed.
---
 core/source_tree_loader/source_file_load_ctxt.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/source_tree_loader/source_file_load_ctxt.cpp b/core/source_tree_loader/source_file_load_ctxt.cpp
index e0006e6..ff58ba9 100644
--- a/core/source_tree_loader/source_file_load_ctxt.cpp
+++ b/core/source_tree_loader/source_file_load_ctxt.cpp
@@ -222,9 +222,13 @@ Maike::SourceTreeLoader::loadSourceFile(SourceFileLoadContext const& load_ctxt,
 			std::copy(std::begin(use_deps), std::end(use_deps), std::back_inserter(builtin_deps));
 			std::copy(std::begin(ctu_deps), std::end(ctu_deps), std::back_inserter(child_target_use_deps));
 		}
-		if(compiler.recipe() != "") { builtin_deps.push_back(makeDependency(compiler)); }
 	}(load_ctxt, compiler ? (*compiler) : loader.compiler(), src_path);
 
+	// NOTE: A compiler tag without recipe inherits the recipe of the loader
+	auto const& recipe_source =
+	   compiler && compiler->recipe() != "" ? *compiler : loader.compiler();
+	if(recipe_source.recipe() != "") { builtin_deps.push_back(makeDependency(recipe_source)); }
+
 	auto const rebuild_policy = [](auto const& tags) {
 		if(auto rebuild_policy = tags.template getIf<Db::RebuildPolicy>("rebuild"); rebuild_policy)
 		{ return *rebuild_policy; }
-- 
2.43.0


From b35928f0d6c77a44e91c1046d3c240c3b269eb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:32 +0000
Subject: [PATCH 14/54] fix: run a failed task again in the next build

If the recipe wrote its targets before it failed (for example when a unit test
has been compiled but fails), the next build considered the targets
up-to-date, and succeeded.
---
 core/db/task.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/core/db/task.cpp b/core/db/task.cpp
index b518e2b..8dbed43 100644
--- a/core/db/task.cpp
+++ b/core/db/task.cpp
@@ -2,6 +2,8 @@
 
 #include "./task.hpp"
 
+#include <algorithm>
+
 Maike::Db::Task::Task(DependencyGraph const& g,
                       SourceFileRecordConst node,
                       Build::Info const& build_info,
@@ -12,6 +14,20 @@ Maike::Db::Task::Task(DependencyGraph const& g,
 {
 }
 
+namespace
+{
+	void markOutOfDate(Maike::Db::SourceFileRecordConst const& node)
+	{
+		auto const& targets = node.sourceFileInfo().targets();
+		std::for_each(std::begin(targets), std::end(targets), [&src = node.path()](auto const& item) {
+			std::error_code ec{};
+			if(!is_regular_file(item.name(), ec) || equivalent(item.name(), src, ec)) { return; }
+			auto const src_time = last_write_time(src, ec);
+			if(!ec) { last_write_time(item.name(), src_time, ec); }
+		});
+	}
+}
+
 std::optional<Maike::Exec::Result> Maike::Db::Task::runIfNecessary(ForceRecompilation force,
                                                                    Invoker invoker)
 {
@@ -20,6 +36,9 @@ std::optional<Maike::Exec::Result> Maike::Db::Task::runIfNecessary(ForceRecompil
 	   || !isUpToDate(m_node, m_use_deps))
 	{
 		auto result = invoker.execve(m_cmd);
+		// NOTE: The recipe may have written some targets before it failed. These must not be taken as
+		// up-to-date by the next build.
+		if(failed(result)) { markOutOfDate(m_node); }
 		m_t_completed = Clock::now();
 		return result;
 	}
-- 
2.43.0


From 76c32639190d52de3f5ebce03040a4c3f0636557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:32 +0000
Subject: [PATCH 15/54] fix: let the generic recipe fail when its command fails

---
 recipes/generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipes/generic.py b/recipes/generic.py
index c654226..179a02c 100755
--- a/recipes/generic.py
+++ b/recipes/generic.py
@@ -42,7 +42,7 @@ if __name__ == '__main__':
 		if sys.argv[1] == 'configure':
 			exit(0)
 		if sys.argv[1] == 'compile':
-			compile(args);
+			exit(compile(args))
 	except Exception as e:
 		print(e, file=sys.stderr)
 		exit(-1)
\ No newline at end of file
-- 
2.43.0


From 6015d3b4d1d92c4cc7c8851ef11262644280ab05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:32 +0000
Subject: [PATCH 16/54] fix: accept a std_revision with only an upper bound

---
 recipes/cxx_compiler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/recipes/cxx_compiler.py b/recipes/cxx_compiler.py
index 0d3f384..30bc427 100755
--- a/recipes/cxx_compiler.py
+++ b/recipes/cxx_compiler.py
@@ -147,6 +147,7 @@ def select_cpp_rev(compiler, rev):
 			return ''
 	else:
 		if 'max' in rev:
+			max_num = get_numeric_rev(rev['max'])
 			default_rev = get_cpp_revision_tag(compiler)
 			if default_rev > max_num:
 				return rev['max']
-- 
2.43.0


From 8b13c662c11873df17e98bd847f954de6c94baf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:22 +0000
Subject: [PATCH 17/54] fix: accept a source or target directory that is not in
 normal form

All paths in the dependency graph are normalized. With --source-dir=./src,
targets were written to the source directory, --source-dir=src/ failed, and
with --target-dir=./out, --targets did not find anything.
---
 core/bin/maike.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/bin/maike.cpp b/core/bin/maike.cpp
index 1bac001..9763cf7 100644
--- a/core/bin/maike.cpp
+++ b/core/bin/maike.cpp
@@ -20,6 +20,12 @@
 
 #include <set>
 
+Maike::fs::path normalizeDir(Maike::fs::path const& path)
+{
+	auto ret = path.lexically_normal();
+	return ret.has_filename() ? ret : ret.parent_path();
+}
+
 Maike::Build::Info makeBuildInfo(Maike::CommandLine const& cmdline)
 {
 	Maike::Build::Info ret;
@@ -31,10 +37,10 @@ Maike::Build::Info makeBuildInfo(Maike::CommandLine const& cmdline)
 	{ ret.buildId(Maike::Build::Id{cmdline.option<Maike::CmdLineOption::BuildId>()}); }
 
 	if(cmdline.hasOption<Maike::CmdLineOption::SourceDir>())
-	{ ret.sourceDir(Maike::fs::path{cmdline.option<Maike::CmdLineOption::SourceDir>()}); }
+	{ ret.sourceDir(normalizeDir(cmdline.option<Maike::CmdLineOption::SourceDir>())); }
 
 	if(cmdline.hasOption<Maike::CmdLineOption::TargetDir>())
-	{ ret.targetDir(Maike::fs::path{cmdline.option<Maike::CmdLineOption::TargetDir>()}); }
+	{ ret.targetDir(normalizeDir(cmdline.option<Maike::CmdLineOption::TargetDir>())); }
 	else
 	{
 		if(ret.sourceDir().filename() != ".")
-- 
2.43.0


From cc074600bc0a04b4bc212a5ab555bd17271f50cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:22 +0000
Subject: [PATCH 18/54] fix: accept target names that are not in normal form

---
 core/db/source_tree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/db/source_tree.cpp b/core/db/source_tree.cpp
index befd619..647e87c 100644
--- a/core/db/source_tree.cpp
+++ b/core/db/source_tree.cpp
@@ -16,7 +16,7 @@ Maike::Db::Target const& Maike::Db::getTarget(SourceTree const& src_tree,
                                               fs::path const& target_name)
 {
 	auto const& targets = src_tree.targets();
-	auto i = targets.find(src_tree.targetDirectory() / target_name);
+	auto i = targets.find((src_tree.targetDirectory() / target_name).lexically_normal());
 	if(i == std::end(targets))
 	{
 		std::string msg{"Unkonwn target `"};
-- 
2.43.0


From a301989541aa3de474844b15b4fb7d62dc3c7a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:22 +0000
Subject: [PATCH 19/54] fix: do not cut off the output of a recipe at a null
 character

---
 core/db/compilation_log.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/db/compilation_log.cpp b/core/db/compilation_log.cpp
index 6708e9f..bb8e2a6 100644
--- a/core/db/compilation_log.cpp
+++ b/core/db/compilation_log.cpp
@@ -75,8 +75,8 @@ Maike::Db::CompilationLog& Maike::Db::CompilationLog::write(Task const& task,
 	append_log(stdout_buff, result.stdout());
 
 	std::lock_guard lock{m_output_mutex};
-	fputs(stdout_buff.c_str(), stdout);
-	fputs(stderr_buff.c_str(), stderr);
+	fwrite(stdout_buff.data(), 1, std::size(stdout_buff), stdout);
+	fwrite(stderr_buff.data(), 1, std::size(stderr_buff), stderr);
 	return *this;
 }
 
-- 
2.43.0


From e8bbc2a14dcff15af0150429899e66bd65843893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:12 +0000
Subject: [PATCH 20/54] fix: print commands in the current directory so that a
 shell finds them

---
 core/exec/command.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/exec/command.cpp b/core/exec/command.cpp
index b99efd2..f721b86 100644
--- a/core/exec/command.cpp
+++ b/core/exec/command.cpp
@@ -27,7 +27,10 @@ namespace
 
 std::string Maike::Exec::toString(Command const& cmd)
 {
-	auto cmdline = shell_escape(cmd.executable.string());
+	// NOTE: Without a slash, a shell would look for the command in PATH
+	auto const executable =
+	   cmd.executable.has_parent_path() ? cmd.executable : fs::path{"."} / cmd.executable;
+	auto cmdline = shell_escape(executable.string());
 	std::for_each(std::begin(cmd.args), std::end(cmd.args), [&cmdline](auto const& item) {
 		cmdline += " ";
 		cmdline += shell_escape(item);
-- 
2.43.0


From faca5e2dc7dcc1f681041a14fd9be8b83dcbdf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:28 +0000
Subject: [PATCH 21/54] fix: let a boolean replace another one when compounds
 are merged

---
 core/key_value_store/compound.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/core/key_value_store/compound.cpp b/core/key_value_store/compound.cpp
index 1f59a9f..c04f1d4 100644
--- a/core/key_value_store/compound.cpp
+++ b/core/key_value_store/compound.cpp
@@ -7,12 +7,26 @@
 
 #include <algorithm>
 
+namespace
+{
+	bool isBoolean(Maike::KeyValueStore::Type type)
+	{
+		return type == Maike::KeyValueStore::Type::True || type == Maike::KeyValueStore::Type::False;
+	}
+
+	bool compatible(Maike::KeyValueStore::Type a, Maike::KeyValueStore::Type b)
+	{
+		return a == b || (isBoolean(a) && isBoolean(b));
+	}
+}
+
 Maike::KeyValueStore::Compound& Maike::KeyValueStore::operator|=(Compound& a, CompoundRefConst b)
 {
 	std::for_each(std::begin(b), std::end(b), [&a](auto const& item) {
 		if(auto item_in_a = a.getIfAny(item.first); item_in_a)
 		{
-			if(item_in_a->type() != item.second.type()) { throw std::runtime_error{"Type mismatch"}; }
+			if(!compatible(item_in_a->type(), item.second.type()))
+			{ throw std::runtime_error{"Type mismatch"}; }
 
 			switch(item_in_a->type())
 			{
-- 
2.43.0


From 9e9dcfbcc93c735a6fd2245c753f04c708dad2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:32 +0000
Subject: [PATCH 22/54] fix: do not let the recipe for directories depend on
 its directory when the source directory is the current one

---
 core/source_tree_loader/source_file_loader_delegator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/source_tree_loader/source_file_loader_delegator.cpp b/core/source_tree_loader/source_file_loader_delegator.cpp
index 755d5e2..c1732d5 100644
--- a/core/source_tree_loader/source_file_loader_delegator.cpp
+++ b/core/source_tree_loader/source_file_loader_delegator.cpp
@@ -12,7 +12,7 @@ Maike::Db::SourceFileInfo Maike::SourceTreeLoader::SourceFileLoaderDelegator::lo
 	SourceFileLoadContext load_ctxt{src_path, src_dir, target_dir};
 
 	std::vector<Db::Dependency> deps;
-	if(src_dir != src_path && src_path != m_dir_compiler.get().recipe())
+	if(src_dir != src_path && src_path.lexically_normal() != m_dir_compiler.get().recipe())
 	{
 		deps.push_back(Db::Dependency{
 		   load_ctxt.sourceFileDir(), Db::SourceFileOrigin::Project, std::vector<Db::Property>{}});
-- 
2.43.0


From 0c29d1bc1b1ebf1f658386efa2549a4bf1a7e2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:45 +0000
Subject: [PATCH 23/54] fix: recognise character literals with an encoding
 prefix or after a slash

The quote after the prefix was taken for a digit separator, so that a quotation
mark or a slash within the literal hid the rest of the line, or began a comment.
---
 .../cxx/source_file_loader.cpp                | 26 ++++++++++++++++---
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/core/source_file_info_loaders/cxx/source_file_loader.cpp b/core/source_file_info_loaders/cxx/source_file_loader.cpp
index d7b248d..4bc8280 100644
--- a/core/source_file_info_loaders/cxx/source_file_loader.cpp
+++ b/core/source_file_info_loaders/cxx/source_file_loader.cpp
@@ -33,6 +33,16 @@ namespace
 	{
 		return ch == 'u' || ch == 'U' || ch == 'L' || ch == '8';
 	}
+
+	// NOTE: Within a number, ' is a digit separator
+	bool is_part_of_number(bool prev_is_part_of_number, int ch_prev, int ch)
+	{
+		if(ch == '\'') { return prev_is_part_of_number; }
+		if(!is_identifier_char(ch)) { return false; }
+		if(is_identifier_char(ch_prev) || (prev_is_part_of_number && ch_prev == '\''))
+		{ return prev_is_part_of_number; }
+		return ch >= '0' && ch <= '9';
+	}
 }
 
 std::vector<Maike::Db::Dependency>
@@ -70,12 +80,15 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 	std::string include_path;
 
 	int ch_in = '\n';
+	bool in_number = false;
 	while(true)
 	{
 		auto const ch_prev = ch_in;
 		ch_in = input_buff.getchar();
 		if(ch_in == -1) { return deps; }
 
+		in_number = is_part_of_number(in_number, ch_prev, ch_in);
+
 		switch(state)
 		{
 			case State::Newline:
@@ -113,6 +126,8 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 					case '*': state = State::CommentBlock; break;
 					case '/': state = State::LineComment; break;
 					case '\n': state = State::Newline; break;
+					case '"': state = State::StringLiteral; break;
+					case '\'': state = State::CharLiteral; break;
 
 					default: state = State::SkipLine;
 				}
@@ -128,8 +143,7 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 					case '\n': state = State::Newline; break;
 					case '"': state = State::StringLiteral; break;
 					case '\'':
-						// NOTE: After a digit or a letter, ' is a digit separator
-						if(!is_identifier_char(ch_prev)) { state = State::CharLiteral; }
+						if(!in_number) { state = State::CharLiteral; }
 						break;
 					case 'R':
 						if(is_identifier_char(ch_prev) && !is_encoding_prefix(ch_prev)) { break; }
@@ -385,6 +399,7 @@ void Cxx::SourceFileLoader::filterInput(
 	std::string raw_string_tag;
 	std::string raw_string_end_mark;
 	int ch_in = '\n';
+	bool in_number = false;
 	while(true)
 	{
 		auto const ch_prev = ch_in;
@@ -394,6 +409,8 @@ void Cxx::SourceFileLoader::filterInput(
 		// For simplicity, copy raw stream to source output
 		source.putchar(static_cast<std::byte>(ch_in));
 
+		in_number = is_part_of_number(in_number, ch_prev, ch_in);
+
 		switch(state)
 		{
 			case State::Newline:
@@ -478,8 +495,7 @@ void Cxx::SourceFileLoader::filterInput(
 						break;
 					case '"': state = State::StringLiteral; break;
 					case '\'':
-						// NOTE: After a digit or a letter, ' is a digit separator
-						if(!is_identifier_char(ch_prev)) { state = State::CharLiteral; }
+						if(!in_number) { state = State::CharLiteral; }
 						break;
 					case 'R':
 						if(is_identifier_char(ch_prev) && !is_encoding_prefix(ch_prev)) { break; }
@@ -554,6 +570,8 @@ void Cxx::SourceFileLoader::filterInput(
 				{
 					case '*': state = State::CommentBlock; break;
 					case '/': state = State::LineComment; break;
+					case '"': state = State::StringLiteral; break;
+					case '\'': state = State::CharLiteral; break;
 					case '\n':
 						state = State::Newline;
 						tags.putchar('\n');
-- 
2.43.0


From 9da5950e94e4220a34aa2bbe3b3751a1879e5b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:30 +0000
Subject: [PATCH 24/54] fix: join lines that end with a backslash when looking
 for includes

---
 .../cxx/source_file_loader.cpp                | 27 ++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/core/source_file_info_loaders/cxx/source_file_loader.cpp b/core/source_file_info_loaders/cxx/source_file_loader.cpp
index 4bc8280..16a5403 100644
--- a/core/source_file_info_loaders/cxx/source_file_loader.cpp
+++ b/core/source_file_info_loaders/cxx/source_file_loader.cpp
@@ -7,6 +7,8 @@
 #include "core/io/input_buffer.hpp"
 #include "core/io/output_buffer.hpp"
 
+#include <optional>
+
 namespace
 {
 	auto get_origin(std::vector<std::regex> const& gen_includes , std::filesystem::path const& include_path)
@@ -43,6 +45,25 @@ namespace
 		{ return prev_is_part_of_number; }
 		return ch >= '0' && ch <= '9';
 	}
+
+	// NOTE: Except in a raw string literal, a line that ends with a backslash continues on the next
+	template<class InputBuffer>
+	int get_spliced(InputBuffer& input, std::optional<int>& ch_next, bool raw)
+	{
+		while(true)
+		{
+			auto const ch = ch_next ? *ch_next : input.getchar();
+			ch_next.reset();
+			if(raw || ch != '\\') { return ch; }
+
+			auto const ch_after = input.getchar();
+			if(ch_after != '\n')
+			{
+				ch_next = ch_after;
+				return ch;
+			}
+		}
+	}
 }
 
 std::vector<Maike::Db::Dependency>
@@ -80,11 +101,15 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 	std::string include_path;
 
 	int ch_in = '\n';
+	std::optional<int> ch_next;
 	bool in_number = false;
 	while(true)
 	{
 		auto const ch_prev = ch_in;
-		ch_in = input_buff.getchar();
+		ch_in = get_spliced(input_buff,
+		                    ch_next,
+		                    state == State::RawStringTag || state == State::RawString
+		                       || state == State::RawStringPreEnd);
 		if(ch_in == -1) { return deps; }
 
 		in_number = is_part_of_number(in_number, ch_prev, ch_in);
-- 
2.43.0


From 8112f96405847542a202e1af11237fa413d0d655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:20 +0000
Subject: [PATCH 25/54] fix: recognise raw string literals right after a slash

---
 .../cxx/source_file_loader.cpp                         | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/source_file_info_loaders/cxx/source_file_loader.cpp b/core/source_file_info_loaders/cxx/source_file_loader.cpp
index 16a5403..f77b876 100644
--- a/core/source_file_info_loaders/cxx/source_file_loader.cpp
+++ b/core/source_file_info_loaders/cxx/source_file_loader.cpp
@@ -153,6 +153,11 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 					case '\n': state = State::Newline; break;
 					case '"': state = State::StringLiteral; break;
 					case '\'': state = State::CharLiteral; break;
+					case 'R':
+						raw_string_tag.clear();
+						raw_string_end_mark.clear();
+						state = State::RawStringBegin;
+						break;
 
 					default: state = State::SkipLine;
 				}
@@ -597,6 +602,11 @@ void Cxx::SourceFileLoader::filterInput(
 					case '/': state = State::LineComment; break;
 					case '"': state = State::StringLiteral; break;
 					case '\'': state = State::CharLiteral; break;
+					case 'R':
+						raw_string_tag.clear();
+						raw_string_end_mark.clear();
+						state = State::RawStringBegin;
+						break;
 					case '\n':
 						state = State::Newline;
 						tags.putchar('\n');
-- 
2.43.0


From a34b3c87f6491af5b6a92859180a26d1c90ab5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:55 +0000
Subject: [PATCH 26/54] fix: do not let control characters at the beginning of
 a line end up among the tags

---
 core/source_file_info_loaders/cxx/source_file_loader.cpp       | 2 +-
 core/source_file_info_loaders/extension/source_file_loader.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/source_file_info_loaders/cxx/source_file_loader.cpp b/core/source_file_info_loaders/cxx/source_file_loader.cpp
index f77b876..5758667 100644
--- a/core/source_file_info_loaders/cxx/source_file_loader.cpp
+++ b/core/source_file_info_loaders/cxx/source_file_loader.cpp
@@ -465,7 +465,7 @@ void Cxx::SourceFileLoader::filterInput(
 						if(!(ch_in >= '\0' && ch_in <= ' ')) { state = State::SkipLine; }
 						else
 						{
-							tags.putchar(ch_in);
+							tags.putchar(ch_in == '\n' || ch_in == '\t' ? ch_in : ' ');
 						}
 						break;
 				}
diff --git a/core/source_file_info_loaders/extension/source_file_loader.cpp b/core/source_file_info_loaders/extension/source_file_loader.cpp
index 6c85ada..ab81120 100644
--- a/core/source_file_info_loaders/extension/source_file_loader.cpp
+++ b/core/source_file_info_loaders/extension/source_file_loader.cpp
@@ -47,7 +47,7 @@ void Extension::SourceFileLoader::filterInput(
 						if(!(ch_in >= '\0' && ch_in <= ' ')) { state = State::SkipLine; }
 						else
 						{
-							tags.putchar(ch_in);
+							tags.putchar(ch_in == '\n' || ch_in == '\t' ? ch_in : ' ');
 						}
 						break;
 				}
-- 
2.43.0


From 0e3871a145b1e0af340685b31ccbd80887aaeace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:05 +0000
Subject: [PATCH 27/54] fix: run children correctly if a standard stream of
 maike is closed

---
 core/exec/execve.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/core/exec/execve.cpp b/core/exec/execve.cpp
index 9c07f98..d614b61 100644
--- a/core/exec/execve.cpp
+++ b/core/exec/execve.cpp
@@ -30,8 +30,14 @@ namespace
 			// NOTE: Children are created concurrently. Set FD_CLOEXEC atomically so that a pipe is not
 			// inherited by any other child.
 			if(pipe2(fds, O_CLOEXEC) == -1) { throw std::runtime_error{"Failed to create pipe"}; }
-			m_read_end = fds[0];
-			m_write_end = fds[1];
+			m_read_end = keepFromStdio(fds[0]);
+			m_write_end = keepFromStdio(fds[1]);
+			if(m_read_end == -1 || m_write_end == -1)
+			{
+				if(m_read_end != -1) { closeReadEnd(); }
+				if(m_write_end != -1) { closeWriteEnd(); }
+				throw std::runtime_error{"Failed to create pipe"};
+			}
 		}
 
 		~Pipe()
@@ -106,6 +112,16 @@ namespace
 	private:
 		int m_read_end;
 		int m_write_end;
+
+		// NOTE: If a standard stream of this process is closed, its descriptor may be used for a pipe,
+		// and is then in the way when the standard streams of the child are set up.
+		static int keepFromStdio(int fd)
+		{
+			if(fd > STDERR_FILENO) { return fd; }
+			auto const ret = ::fcntl(fd, F_DUPFD_CLOEXEC, STDERR_FILENO + 1);
+			::close(fd);
+			return ret;
+		}
 	};
 
 	void write(void* io_redirector, int fd, Maike::Io::Redirector::Writer writer)
-- 
2.43.0


From 706f20308f383b0af68497dc7e6a75cf9685a90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:36 +0000
Subject: [PATCH 28/54] fix: do not let recipes inherit source files that are
 being read

---
 core/io/input_file.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/io/input_file.hpp b/core/io/input_file.hpp
index 36880ce..603cac1 100644
--- a/core/io/input_file.hpp
+++ b/core/io/input_file.hpp
@@ -16,7 +16,7 @@ namespace Maike::Io
 	class InputFile
 	{
 	public:
-		explicit InputFile(fs::path const& path): m_handle{open(path.c_str(), O_RDONLY)}
+		explicit InputFile(fs::path const& path): m_handle{open(path.c_str(), O_RDONLY | O_CLOEXEC)}
 		{
 			if(m_handle == -1)
 			{ throw std::runtime_error{std::string{"It was not possible to read "} + path.string()}; }
-- 
2.43.0


From 83a2d496d08505bc8a7277483252bd4ba241d09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:38 +0000
Subject: [PATCH 29/54] fix: do not close the descriptor of a moved-from input
 file twice

---
 core/io/input_file.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/io/input_file.hpp b/core/io/input_file.hpp
index 603cac1..88d0d19 100644
--- a/core/io/input_file.hpp
+++ b/core/io/input_file.hpp
@@ -47,6 +47,7 @@ namespace Maike::Io
 		void reset()
 		{
 			if(m_handle != -1) { close(m_handle); }
+			m_handle = -1;
 		}
 
 		int get() const
-- 
2.43.0


From 7d4029f4f635fe94b6bda2cc167f42a2d891794c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:38 +0000
Subject: [PATCH 30/54] fix: report text that is not valid UTF-8 instead of
 leaving it out

---
 core/key_value_store/json_handle.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/key_value_store/json_handle.hpp b/core/key_value_store/json_handle.hpp
index e35999a..b24ec4a 100644
--- a/core/key_value_store/json_handle.hpp
+++ b/core/key_value_store/json_handle.hpp
@@ -173,6 +173,7 @@ namespace Maike::KeyValueStore
 
 		explicit JsonHandle(char const* x): JsonHandle{json_string(x)}
 		{
+			if(!valid()) { throw std::runtime_error{std::string{"`"} + x + "` is not valid UTF-8."}; }
 		}
 
 		explicit JsonHandle(std::string const& x): JsonHandle{x.c_str()}
-- 
2.43.0


From 645c5a53f2f19b9ecb3a602b05c47f9b2c9989ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:49 +0000
Subject: [PATCH 31/54] fix: reject text that begins with control characters as
 JSON

---
 core/key_value_store/json_handle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/key_value_store/json_handle.cpp b/core/key_value_store/json_handle.cpp
index 1aaa53f..c0c5bcf 100644
--- a/core/key_value_store/json_handle.cpp
+++ b/core/key_value_store/json_handle.cpp
@@ -24,7 +24,7 @@ namespace
 	{
 		return std::any_of(begin, end, [](auto item) {
 			auto ch_in = static_cast<char>(item);
-			return !(ch_in >= 0 && ch_in <= ' ');
+			return !(ch_in == ' ' || ch_in == '\t' || ch_in == '\n' || ch_in == '\r');
 		});
 	}
 
-- 
2.43.0


From d3191f4d4d10ef74b41c7846041250a4ea30b507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:58 +0000
Subject: [PATCH 32/54] fix: reject command line options that are only the
 beginning of a valid one

---
 core/cmd_line_parser/command_line.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/cmd_line_parser/command_line.cpp b/core/cmd_line_parser/command_line.cpp
index 46a664e..d84c8b9 100644
--- a/core/cmd_line_parser/command_line.cpp
+++ b/core/cmd_line_parser/command_line.cpp
@@ -76,7 +76,7 @@ uint64_t Maike::CmdLineParser::detail::collect_options(char const* const* argv_b
 		                    str,
 		                    CompareOptItemsByName{static_cast<size_t>(splitpoint - str)});
 
-		if(x == optitems_end)
+		if(x == optitems_end || x->name[splitpoint - str] != '\0')
 		{ throw std::runtime_error{std::string{"Invalid command line option "} + str}; }
 
 		set_vals |= x->converter(tuple, splitpoint == str_end ? "" : splitpoint + 1);
-- 
2.43.0


From fc214f4b7d2d37f9ca54ea6108e098cb348e6e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:58 +0000
Subject: [PATCH 33/54] fix: reject build ids that do not have 64 digits

---
 core/build/id.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/build/id.cpp b/core/build/id.cpp
index 4970618..a32f6d2 100644
--- a/core/build/id.cpp
+++ b/core/build/id.cpp
@@ -2,6 +2,7 @@
 
 #include "./id.hpp"
 
+#include <cstring>
 #include <algorithm>
 #include <random>
 
@@ -30,6 +31,9 @@ namespace
 
 Maike::Build::Id::Id(char const* cstr): m_bytes{}
 {
+	if(strlen(cstr) != 2 * m_bytes.size())
+	{ throw std::runtime_error{std::string{"Invalid BuildId: `"} + cstr + "` does not have 64 digits"}; }
+
 	size_t k = 0;
 	std::byte val;
 	while(true)
-- 
2.43.0


From 9ad35deb8b7de45ee5fc40928153e93a544f39cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:25 +0000
Subject: [PATCH 34/54] fix: reject thread counts that are out of range or
 followed by other characters

---
 core/sched/thread_count.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/sched/thread_count.cpp b/core/sched/thread_count.cpp
index 1b10edd..9f46f23 100644
--- a/core/sched/thread_count.cpp
+++ b/core/sched/thread_count.cpp
@@ -4,6 +4,7 @@
 
 #include "./thread_count.hpp"
 
+#include <cerrno>
 #include <cstring>
 #include <cstdlib>
 #include <stdexcept>
@@ -20,8 +21,11 @@ Maike::ThreadCount::ThreadCount(char const* str)
 	if(strcmp(str, "auto") == 0) { m_val = -1; }
 	else
 	{
-		m_val = atoi(str);
-		if(m_val < 1)
+		char* end = nullptr;
+		errno = 0;
+		auto const val = strtol(str, &end, 10);
+		m_val = static_cast<int>(val);
+		if(val < 1 || m_val != val || errno != 0 || *end != '\0')
 		{ throw std::runtime_error{"ThreadCount must be an integer greater than zero, or auto"}; }
 	}
 }
-- 
2.43.0


From e1b031d42cb395acf250fa100e0de12ef8a02d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:12 +0000
Subject: [PATCH 35/54] fix: report an error if a worker thread cannot be
 started

---
 core/sched/thread_pool.cpp | 16 ++++++++++++++--
 core/sched/thread_pool.hpp |  3 +++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/core/sched/thread_pool.cpp b/core/sched/thread_pool.cpp
index d16690d..5b76e2f 100644
--- a/core/sched/thread_pool.cpp
+++ b/core/sched/thread_pool.cpp
@@ -10,8 +10,8 @@ Maike::Sched::ThreadPool::ThreadPool(ThreadCount n_threads):
    m_n_threads{n_threads.value()},
    m_threads{std::make_unique<pthread_t[]>(m_n_threads)}
 {
-	std::for_each(m_threads.get(), m_threads.get() + m_n_threads, [this](auto& item) {
-		pthread_create(
+	std::for_each(m_threads.get(), m_threads.get() + m_n_threads, [this, n_started = 0](auto& item) mutable {
+		auto const res = pthread_create(
 		   &item,
 		   nullptr,
 		   [](void* pool) {
@@ -20,10 +20,22 @@ Maike::Sched::ThreadPool::ThreadPool(ThreadCount n_threads):
 			   return static_cast<void*>(nullptr);
 		   },
 		   this);
+		if(res != 0)
+		{
+			m_n_threads = n_started;
+			joinThreads();
+			throw std::runtime_error{"It was not possible to start all worker threads"};
+		}
+		++n_started;
 	});
 }
 
 Maike::Sched::ThreadPool::~ThreadPool()
+{
+	joinThreads();
+}
+
+void Maike::Sched::ThreadPool::joinThreads()
 {
 	{
 		std::lock_guard lock{m_mtx};
diff --git a/core/sched/thread_pool.hpp b/core/sched/thread_pool.hpp
index de8731a..5862111 100644
--- a/core/sched/thread_pool.hpp
+++ b/core/sched/thread_pool.hpp
@@ -20,6 +20,7 @@
 #include <condition_variable>
 #include <exception>
 #include <optional>
+#include <stdexcept>
 
 namespace Maike::Sched
 {
@@ -158,6 +159,8 @@ namespace Maike::Sched
 
 		void performTasks();
 
+		void joinThreads();
+
 		std::mutex m_eptr_mtx;
 		std::exception_ptr m_eptr;
 	};
-- 
2.43.0


From 4e9257b3b90f34285ca4913d6d9095d7618974c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:12 +0000
Subject: [PATCH 36/54] fix: reject start times that are out of range

---
 core/utils/system_time_stamp.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/utils/system_time_stamp.cpp b/core/utils/system_time_stamp.cpp
index 449f6d9..a1a32e4 100644
--- a/core/utils/system_time_stamp.cpp
+++ b/core/utils/system_time_stamp.cpp
@@ -16,7 +16,10 @@ Maike::SystemTimeStamp::SystemTimeStamp(char const* str)
 	auto l = strlen(str);
 	errno = 0;
 	auto tmp = strtoll(str, &end, 0);
-	if(end != str + l || errno != 0)
+	using seconds = std::chrono::seconds;
+	constexpr auto max =
+	   std::chrono::duration_cast<seconds>(std::chrono::system_clock::duration::max()).count();
+	if(end != str + l || errno != 0 || tmp > max || tmp < -max)
 	{ throw std::runtime_error{std::string{"Invalid timestamp "} + str}; }
 	m_val = std::chrono::system_clock::from_time_t(tmp);
 }
-- 
2.43.0


From 1809e0ce0cb90e5adb71cfbbc4e64b8d4cedac46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:48 +0000
Subject: [PATCH 37/54] fix: do not pass a null pointer to fprintf when
 printing a list of paths

---
 core/bin/maike.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/core/bin/maike.cpp b/core/bin/maike.cpp
index 9763cf7..cc477bc 100644
--- a/core/bin/maike.cpp
+++ b/core/bin/maike.cpp
@@ -239,14 +239,11 @@ void print(char const* name, Maike::SystemTimeStamp t)
 	        time_decomposed.tm_sec);
 }
 
-template<class T>
-void print(char const* name, std::vector<T> const& v)
+void print(char const* name, std::vector<Maike::fs::path> const& v)
 {
 	fprintf(stderr, "%s: ", name);
-	std::for_each(std::begin(v), std::end(v), [](auto const& val) {
-		print(nullptr, val);
-		fprintf(stderr, ", ");
-	});
+	std::for_each(
+	   std::begin(v), std::end(v), [](auto const& val) { fprintf(stderr, "%s, ", val.c_str()); });
 }
 
 void write(FILE* stream, void const* buffer, size_t n)
-- 
2.43.0


From e60463b899531bf2d9df3b7322840470d2e7a124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:17 +0000
Subject: [PATCH 38/54] fix: do not terminate if a thread for the output of a
 child cannot be started

---
 core/exec/execve.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/core/exec/execve.cpp b/core/exec/execve.cpp
index d614b61..451f81b 100644
--- a/core/exec/execve.cpp
+++ b/core/exec/execve.cpp
@@ -153,8 +153,21 @@ namespace
 	   pid_t pid, Maike::Io::Redirector const& io_redirector, Pipe& stdin, int stdout, int stderr)
 	{
 		signal(SIGPIPE, SIG_IGN);
-		std::thread stderr_proc{read, io_redirector.handle(), stderr, io_redirector.stderr()};
-		std::thread stdout_proc{read, io_redirector.handle(), stdout, io_redirector.stdout()};
+		std::thread stderr_proc;
+		std::thread stdout_proc;
+		try
+		{
+			stderr_proc = std::thread{read, io_redirector.handle(), stderr, io_redirector.stderr()};
+			stdout_proc = std::thread{read, io_redirector.handle(), stdout, io_redirector.stdout()};
+		}
+		catch(...)
+		{
+			// NOTE: Nobody would read what the child writes. Do not leave it behind.
+			::kill(pid, SIGKILL);
+			(void)::waitpid(pid, nullptr, 0);
+			if(stderr_proc.joinable()) { stderr_proc.join(); }
+			throw;
+		}
 		write(io_redirector.handle(), stdin.writeEnd(), io_redirector.stdin());
 		// NOTE: There is no more data to send. Without end-of-file, a child that reads all of its
 		// standard input would never terminate.
-- 
2.43.0


From dcff3f95685a541b3efd1651bea87632e32876f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:47 +0000
Subject: [PATCH 39/54] fix: remove an existing library before it is made anew

ar keeps the members that are already in an archive, so an object that is
no longer a dependency of a library stayed in it.
---
 recipes/make_lib.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/recipes/make_lib.py b/recipes/make_lib.py
index 9b3a5a1..9ac01da 100755
--- a/recipes/make_lib.py
+++ b/recipes/make_lib.py
@@ -30,8 +30,12 @@ def filter_deps(dep_items):
 
 
 def compile(build_args):
+	target = build_args['targets'][0]
+	# An existing archive would keep members that are no longer wanted
+	if os.path.exists(target):
+		os.remove(target)
 	args = [compiler, 'rcs']
-	args.append(build_args['targets'][0])
+	args.append(target)
 	args.extend(filter_deps(collect_deps(build_args['dependencies'])))
 	result = subprocess.run(args)
 	return result.returncode
-- 
2.43.0


From 8ede502291ac8c5d3d83f4aac24a27709ae87822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:02 +0000
Subject: [PATCH 40/54] fix: link objects before archives and external
 libraries

If a program uses both a library and some of the objects in it, and the
library came first, the linker took them from both and failed with
multiple definitions.
---
 recipes/cxx_linker.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/recipes/cxx_linker.py b/recipes/cxx_linker.py
index 0fbfee7..700e8f7 100755
--- a/recipes/cxx_linker.py
+++ b/recipes/cxx_linker.py
@@ -35,6 +35,9 @@ def filter_deps(dep_items):
 			ret.append(item)
 			bookkeeping.add(item)
 	ret.reverse()
+	# The objects that went into a library are also in the list, and an archive must only provide what
+	# they do not
+	ret.sort(key = lambda x: 2 if x.startswith('-') else 1 if x.endswith('.a') else 0)
 	return ret
 
 
-- 
2.43.0


From 1ad6635e5cadf98c04d750342323b82e2bd3badb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:12 +0000
Subject: [PATCH 41/54] fix: do not let recipes ignore SIGPIPE

---
 core/exec/execve.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/exec/execve.cpp b/core/exec/execve.cpp
index 451f81b..1ad66cc 100644
--- a/core/exec/execve.cpp
+++ b/core/exec/execve.cpp
@@ -227,6 +227,8 @@ Maike::Exec::ExitStatus Maike::Exec::execve(fs::path const& executable,
 			stdout.moveWriteEndTo(STDOUT_FILENO);
 			stderr.moveWriteEndTo(STDERR_FILENO);
 			auto fd_exec_err = exec_err.closeWriteEndOnExec();
+			// NOTE: Ignored signals stay ignored after exec. See communicateWith.
+			signal(SIGPIPE, SIG_DFL);
 			if(::execve(executable.c_str(), const_cast<char* const*>(cmd_args.data()), environ) == -1)
 			{
 				lock.unlock();
-- 
2.43.0


From 9f38ee8efd7e26f91535ff4cdee9a5c685d41970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:39 +0000
Subject: [PATCH 42/54] fix: do not abort if SIGCHLD is ignored

---
 core/exec/execve.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/exec/execve.cpp b/core/exec/execve.cpp
index 1ad66cc..daa4c7b 100644
--- a/core/exec/execve.cpp
+++ b/core/exec/execve.cpp
@@ -12,6 +12,7 @@
 #include <unistd.h>
 #include <fcntl.h>
 #include <sys/wait.h>
+#include <signal.h>
 
 #include <algorithm>
 #include <thread>
@@ -209,6 +210,8 @@ Maike::Exec::ExitStatus Maike::Exec::execve(fs::path const& executable,
 	Pipe exec_err;
 
 	std::unique_lock lock{exec_mutex};
+	// NOTE: If SIGCHLD is ignored, the exit status of a child is lost
+	signal(SIGCHLD, SIG_DFL);
 	auto pid = ::fork();
 	constexpr decltype(pid) ForkFailed = -1;
 	constexpr decltype(pid) Child = 0;
-- 
2.43.0


From f1b4272a93e8107e39c03fce6fea3fafe11d39e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:36 +0000
Subject: [PATCH 43/54] fix: do not overflow the stack when matching a very
 long include path

---
 core/source_file_info_loaders/cxx/source_file_loader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/source_file_info_loaders/cxx/source_file_loader.cpp b/core/source_file_info_loaders/cxx/source_file_loader.cpp
index 5758667..6d478d8 100644
--- a/core/source_file_info_loaders/cxx/source_file_loader.cpp
+++ b/core/source_file_info_loaders/cxx/source_file_loader.cpp
@@ -8,11 +8,16 @@
 #include "core/io/output_buffer.hpp"
 
 #include <optional>
+#include <climits>
 
 namespace
 {
 	auto get_origin(std::vector<std::regex> const& gen_includes , std::filesystem::path const& include_path)
 	{
+		// NOTE: The depth of recursion in regex_search is proportional to the length of the string. A
+		// longer path cannot refer to any file.
+		if(std::size(include_path.native()) > PATH_MAX) { return Maike::Db::SourceFileOrigin::Project; }
+
 		if(std::any_of(std::begin(gen_includes), std::end(gen_includes), [str = include_path.c_str()](auto const& item) {
 			return regex_search(str, item);
 		}))
-- 
2.43.0


From f6315388cdbfe0010d4279739440839a64e34fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:17 +0000
Subject: [PATCH 44/54] fix: escape names in the dependency graph that is
 printed

---
 core/bin/maike.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/core/bin/maike.cpp b/core/bin/maike.cpp
index cc477bc..0e4f642 100644
--- a/core/bin/maike.cpp
+++ b/core/bin/maike.cpp
@@ -75,6 +75,18 @@ void printTargets(Maike::Db::TargetList const& targets,
 	});
 }
 
+std::string dotQuoted(Maike::fs::path const& path)
+{
+	std::string ret{"\""};
+	auto const& str = path.native();
+	std::for_each(std::begin(str), std::end(str), [&ret](char ch) {
+		if(ch == '"' || ch == '\\') { ret += '\\'; }
+		ret += ch;
+	});
+	ret += '"';
+	return ret;
+}
+
 void printDepGraph(Maike::Db::DependencyGraph const& source_files, Maike::fs::path const&)
 {
 	std::set<std::pair<Maike::fs::path, Maike::fs::path>> output;
@@ -94,7 +106,7 @@ void printDepGraph(Maike::Db::DependencyGraph const& source_files, Maike::fs::pa
 	   source_files);
 	puts("digraph \"G\" {\nrankdir=LR\n");
 	std::for_each(std::begin(output), std::end(output), [](auto const& item) {
-		printf("\"%s\" -> \"%s\"\n", item.first.c_str(), item.second.c_str());
+		printf("%s -> %s\n", dotQuoted(item.first).c_str(), dotQuoted(item.second).c_str());
 	});
 	puts("}");
 }
-- 
2.43.0


From 026ec6030efdaf3e4c71155f21e7c1b435677c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:52 +0000
Subject: [PATCH 45/54] fix: parse the quoted output of pkg-config

---
 recipes/pkg_config.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/recipes/pkg_config.py b/recipes/pkg_config.py
index 46eda36..a1ff4bf 100755
--- a/recipes/pkg_config.py
+++ b/recipes/pkg_config.py
@@ -1,5 +1,6 @@
 #!/usr/bin/env python3
 
+import shlex
 import subprocess
 import sys
 
@@ -10,19 +11,14 @@ def get_cflags(libname):
 	result = subprocess.run(['pkg-config', '--cflags', libname], stdout=subprocess.PIPE, text=True)
 	if result.returncode != 0:
 		raise Exception('pkg-config failed: %d' % result.returncode)
-	ret_str = result.stdout.strip()
-	if len(ret_str) == 0:
-		return []
-	return ret_str.split(' ')
+	# The output is written for a shell, with special characters escaped
+	return shlex.split(result.stdout)
 
 def get_libs(libname):
 	result = subprocess.run(['pkg-config', '--libs-only-l', libname], stdout=subprocess.PIPE, text=True)
 	if result.returncode != 0:
 		raise Exception('pkg-config failed: %d' % result.returncode)
-	ret_str = result.stdout.strip()
-	if len(ret_str) == 0:
-		return []
-	ret = ret_str.split()
+	ret = shlex.split(result.stdout)
 	ret.reverse()
 	return ret
 
@@ -30,10 +26,7 @@ def get_libdirs(libname):
 	result = subprocess.run(['pkg-config', '--libs-only-L', libname], stdout=subprocess.PIPE, text=True)
 	if result.returncode != 0:
 		raise Exception('pkg-config failed: %d' % result.returncode)
-	ret_str = result.stdout.strip()
-	if len(ret_str) == 0:
-		return []
-	ret = ret_str.split()
+	ret = shlex.split(result.stdout)
 	ret.reverse()
 	return ret
 
-- 
2.43.0


From 26d068ad0c6e12e0a8c39a008488235ec6999461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:41 +0000
Subject: [PATCH 46/54] fix: let generic.py handle files in subdirectories and
 other source directories

---
 recipes/generic.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/recipes/generic.py b/recipes/generic.py
index 179a02c..009d76d 100755
--- a/recipes/generic.py
+++ b/recipes/generic.py
@@ -2,6 +2,7 @@
 
 import sys
 import json
+import os
 import subprocess
 from string import Template
 
@@ -12,18 +13,32 @@ def get_tags(args, scriptname):
 
 	ret['target'] = dict()
 	compiler_cfg = args['compiler_cfg']
-	ret['target']['name']=args['source_file'] + '.' +  compiler_cfg['target_filename_ext']
+	# The name of a target is relative to the directory of its source file
+	ret['target']['name']=os.path.basename(args['source_file']) + '.' +  compiler_cfg['target_filename_ext']
 
 	command = compiler_cfg['compilation_cmd']
 	ret['dependencies'] = [{'ref': command['executable'], 'origin': command['exec_origin']}]
 	print(json.dumps(ret))
 	return 0
 
+# The executable is given in the same way as other dependencies
+def get_executable(args, command):
+	ref = command['executable']
+	origin = command['exec_origin']
+	if origin != 'project' and origin != 'generated':
+		return ref
+
+	src_dir = args['build_info']['source_dir']
+	base_dir = src_dir if origin == 'project' else args['build_info']['target_dir']
+	if ref.startswith('./'):
+		base_dir = os.path.join(base_dir, os.path.relpath(os.path.dirname(args['source_file']) or '.', src_dir))
+	return os.path.join('.', base_dir, ref)
+
 def compile(args):
 	cmd_args = []
 	compiler_cfg = args['compiler_cfg']
 	command = compiler_cfg['compilation_cmd']
-	cmd_args.append(command['executable'])
+	cmd_args.append(get_executable(args, command))
 	subst = dict()
 	subst['source_file'] = args['source_file']
 	subst['target'] = args['targets'][0]
-- 
2.43.0


From 34bc1448fd55cb6027e45b07807297088b4b5d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:12 +0000
Subject: [PATCH 47/54] fix: let md2htmlpart.py fail if pandoc fails

---
 recipes/md2htmlpart.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/recipes/md2htmlpart.py b/recipes/md2htmlpart.py
index ca4f51a..cd14c14 100755
--- a/recipes/md2htmlpart.py
+++ b/recipes/md2htmlpart.py
@@ -16,6 +16,8 @@ def find_elements(node, element, result):
 
 def convert(src_file, target):
 	pandoc_res = subprocess.run(['pandoc', '-f', 'markdown', '-t', 'html', '--section-divs', src_file], text=True, stdout=subprocess.PIPE)
+	if pandoc_res.returncode != 0:
+		return 1
 
 	doc = '<content>' + pandoc_res.stdout + '</content>'
 
-- 
2.43.0


From d3e25e65662fd8874c65ea4ef6382281b4de2ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:12 +0000
Subject: [PATCH 48/54] fix: find included files of documents in directories
 whose names have special characters

---
 recipes/doc2html.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/recipes/doc2html.py b/recipes/doc2html.py
index d3c37b8..44b7a0e 100755
--- a/recipes/doc2html.py
+++ b/recipes/doc2html.py
@@ -7,12 +7,14 @@ import json
 import xml.etree.ElementTree as ET
 import os
 import re
+import urllib.parse
 
 def compile(args):
 	target_dir = args['build_info']['target_dir']
 	targets = args['targets']
 	source_file = args['source_file']
 	current_dir =  target_dir + '/' + os.path.relpath(os.path.dirname(source_file), args['build_info']['source_dir'])
+	current_dir = urllib.parse.quote(current_dir)	# it is used to build URI:s
 	with open(os.path.dirname(__file__) + '/doc2html.xsl') as f:
 		cmd = ['xsltproc', '-o', targets[0], '--nonet', '--stringparam', 'current_dir', current_dir, '-', source_file]
 		proc = subprocess.Popen(cmd, stdin=f, stderr=subprocess.PIPE)
-- 
2.43.0


From 4e4ac83a011a9aeabe26e573f4170270011bdc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:03 +0000
Subject: [PATCH 49/54] fix: let doc2html.py handle files without a directory

---
 recipes/doc2html.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipes/doc2html.py b/recipes/doc2html.py
index 44b7a0e..7b93d4f 100755
--- a/recipes/doc2html.py
+++ b/recipes/doc2html.py
@@ -13,7 +13,7 @@ def compile(args):
 	target_dir = args['build_info']['target_dir']
 	targets = args['targets']
 	source_file = args['source_file']
-	current_dir =  target_dir + '/' + os.path.relpath(os.path.dirname(source_file), args['build_info']['source_dir'])
+	current_dir =  target_dir + '/' + os.path.relpath(os.path.dirname(source_file) or '.', args['build_info']['source_dir'])
 	current_dir = urllib.parse.quote(current_dir)	# it is used to build URI:s
 	with open(os.path.dirname(__file__) + '/doc2html.xsl') as f:
 		cmd = ['xsltproc', '-o', targets[0], '--nonet', '--stringparam', 'current_dir', current_dir, '-', source_file]
-- 
2.43.0


From 2534f45bfe79821453b7e2e242c0853fee48e5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:33 +0000
Subject: [PATCH 50/54] fix: write documents to directories whose names have a
 percent sign

---
 recipes/doc2html.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipes/doc2html.py b/recipes/doc2html.py
index 7b93d4f..867571e 100755
--- a/recipes/doc2html.py
+++ b/recipes/doc2html.py
@@ -16,7 +16,7 @@ def compile(args):
 	current_dir =  target_dir + '/' + os.path.relpath(os.path.dirname(source_file) or '.', args['build_info']['source_dir'])
 	current_dir = urllib.parse.quote(current_dir)	# it is used to build URI:s
 	with open(os.path.dirname(__file__) + '/doc2html.xsl') as f:
-		cmd = ['xsltproc', '-o', targets[0], '--nonet', '--stringparam', 'current_dir', current_dir, '-', source_file]
+		cmd = ['xsltproc', '-o', urllib.parse.quote(targets[0]), '--nonet', '--stringparam', 'current_dir', current_dir, '-', source_file]
 		proc = subprocess.Popen(cmd, stdin=f, stderr=subprocess.PIPE)
 		outs, errs = proc.communicate()
 		if errs != b'':
-- 
2.43.0


From 0c174b3d046b556959b824b25656dbd47d7b8244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:03 +0000
Subject: [PATCH 51/54] fix: find generated headers if the target directory is
 given as an absolute path

---
 recipes/cxx_compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipes/cxx_compiler.py b/recipes/cxx_compiler.py
index 30bc427..5941962 100755
--- a/recipes/cxx_compiler.py
+++ b/recipes/cxx_compiler.py
@@ -24,7 +24,7 @@ def format_iquote(src_dir, target_dir, dirs):
 		else:
 			ret.append('-iquote%s/%s'%(src_dir, item))
 
-		ret.append('-iquote%s/%s/%s'%(os.getcwd(), target_dir, item))
+		ret.append('-iquote%s'%os.path.join(os.getcwd(), target_dir, item))
 	return ret
 
 def collect_cflags(src_dir, target_dir, src_file_dir, compiler_flags, dependencies):
-- 
2.43.0


From 8cc208d70f0365b19a642199dbf903cbb43d4db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:21 +0000
Subject: [PATCH 52/54] fix: wake up all threads that wait for a counter or the
 result of a task

---
 core/sched/signaling_counter.hpp | 4 ++--
 core/sched/thread_pool.hpp       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/sched/signaling_counter.hpp b/core/sched/signaling_counter.hpp
index 8b5a52d..29df654 100644
--- a/core/sched/signaling_counter.hpp
+++ b/core/sched/signaling_counter.hpp
@@ -29,7 +29,7 @@ namespace Maike::Sched
 		{
 			std::lock_guard lock{m_mtx};
 			++m_value;
-			m_cv.notify_one();
+			m_cv.notify_all();
 			return *this;
 		}
 
@@ -37,7 +37,7 @@ namespace Maike::Sched
 		{
 			std::lock_guard lock{m_mtx};
 			--m_value;
-			m_cv.notify_one();
+			m_cv.notify_all();
 			return *this;
 		}
 
diff --git a/core/sched/thread_pool.hpp b/core/sched/thread_pool.hpp
index 5862111..58cc5a3 100644
--- a/core/sched/thread_pool.hpp
+++ b/core/sched/thread_pool.hpp
@@ -48,14 +48,14 @@ namespace Maike::Sched
 		{
 			std::lock_guard lock{m_mtx};
 			m_result = std::move(obj);
-			m_cv.notify_one();
+			m_cv.notify_all();
 		}
 
 		void set(std::exception_ptr except)
 		{
 			std::lock_guard lock{m_mtx};
 			m_except = except;
-			m_cv.notify_one();
+			m_cv.notify_all();
 		}
 
 		~AsyncTaskResult()
-- 
2.43.0


From 3b303f03ff46a8917e91104bae3c3b816247cfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:29 +0000
Subject: [PATCH 53/54] fix: reject dependency cycles also among files that no
 requested target depends on

---
 core/source_tree_loader/main.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/source_tree_loader/main.cpp b/core/source_tree_loader/main.cpp
index 6d110b9..35b23a3 100644
--- a/core/source_tree_loader/main.cpp
+++ b/core/source_tree_loader/main.cpp
@@ -3,6 +3,7 @@
 #include "./main.hpp"
 
 #include "core/db/source_file_list.hpp"
+#include "core/utils/graphutils.hpp"
 
 Maike::Db::SourceTree Maike::SourceTreeLoader::load(Sched::ThreadPool& workers,
                                                     fs::path const& src_path,
@@ -18,6 +19,8 @@ Maike::Db::SourceTree Maike::SourceTreeLoader::load(Sched::ThreadPool& workers,
 	makeSourceFileInfos(targets, src_files);
 	src_files.merge(createPlaceholdersForExternalEntries(src_files));
 	addTargetDepsToSourceFiles(src_files);
-	return Db::SourceTree{
-	   std::move(targets), Db::DependencyGraph{std::move(src_files)}, fs::path{target_dir}};
+	Db::DependencyGraph graph{std::move(src_files)};
+	// NOTE: This throws an exception if there is a cycle, even if no target depends on it
+	visitNodesInTopoOrder([](auto const&...) {}, graph);
+	return Db::SourceTree{std::move(targets), std::move(graph), fs::path{target_dir}};
 }
\ No newline at end of file
-- 
2.43.0


From 6929bb1eadc68dbc71a457276231f086a47e822b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:35 +0000
Subject: [PATCH 54/54] fix: keep log entries in one piece if standard output
 and standard error are the same file

---
 core/db/compilation_log.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/db/compilation_log.cpp b/core/db/compilation_log.cpp
index bb8e2a6..6fab0a9 100644
--- a/core/db/compilation_log.cpp
+++ b/core/db/compilation_log.cpp
@@ -76,6 +76,7 @@ Maike::Db::CompilationLog& Maike::Db::CompilationLog::write(Task const& task,
 
 	std::lock_guard lock{m_output_mutex};
 	fwrite(stdout_buff.data(), 1, std::size(stdout_buff), stdout);
+	fflush(stdout);
 	fwrite(stderr_buff.data(), 1, std::size(stderr_buff), stderr);
 	return *this;
 }
@@ -106,6 +107,7 @@ Maike::Db::CompilationLog& Maike::Db::CompilationLog::write(Task const& task)
 
 	std::lock_guard lock{m_output_mutex};
 	fputs(stdout_buff.c_str(), stdout);
+	fflush(stdout);
 	return *this;
 }
 
-- 
2.43.0

