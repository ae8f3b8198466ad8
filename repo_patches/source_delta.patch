From 329d893187085b68d9dea2618b9505109819d442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:04 +0000
Subject: [PATCH 01/37] fix: do not search for short flags behind '--'

---
 include/sharg/detail/format_parse.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index b2b0feb..53cfb79 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -258,8 +258,10 @@ private:
     bool flag_is_set(char const short_id)
     {
         // short flags need special attention, since they could be grouped (-rGv <=> -r -G -v)
-        for (std::string & arg : arguments)
+        for (auto it = arguments.begin(); it != end_of_options_it; ++it)
         {
+            std::string & arg = *it;
+
             if (arg[0] == '-' && arg.size() > 1 && arg[1] != '-') // is option && not dash && no long option
             {
                 auto pos = arg.find(short_id);
-- 
2.43.0


From f51132613241abb51ad6707528d6ce2558fdcca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:04 +0000
Subject: [PATCH 02/37] fix: a group of short flags that contains a dash is an
 unknown option

---
 include/sharg/detail/format_parse.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index 53cfb79..0401d07 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -262,7 +262,8 @@ private:
         {
             std::string & arg = *it;
 
-            if (arg[0] == '-' && arg.size() > 1 && arg[1] != '-') // is option && not dash && no long option
+            // is option && not dash && no long option; a group never contains a dash, which cannot be a short identifier
+            if (arg[0] == '-' && arg.size() > 1 && arg.find('-', 1) == std::string::npos)
             {
                 auto pos = arg.find(short_id);
 
-- 
2.43.0


From 59f6928993a8c8bef475db3950ba9b458616d7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:02 +0000
Subject: [PATCH 03/37] fix: empty positional arguments are no longer dropped

---
 include/sharg/detail/format_parse.hpp | 34 +++++++++++++++------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index 0401d07..4af6743 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -118,7 +118,7 @@ public:
         check_for_unknown_ids();
 
         if (end_of_options_it != arguments.end())
-            *end_of_options_it = ""; // remove -- before parsing positional arguments
+            *end_of_options_it = consumed_arg; // remove -- before parsing positional arguments
 
         for (auto && f : positional_option_calls)
             f();
@@ -198,6 +198,10 @@ public:
     }
 
 private:
+    /*!\brief Replaces every argument that was used. In contrast to an empty string, it cannot stem from the command line.
+     */
+    static constexpr std::string_view consumed_arg{"\0", 1u};
+
     //!\brief Describes the result of parsing the user input string given the respective option value type.
     enum class option_parse_result
     {
@@ -247,7 +251,7 @@ private:
         auto it = std::find(arguments.begin(), end_of_options_it, prepend_dash(long_id));
 
         if (it != end_of_options_it)
-            *it = ""; // remove seen flag
+            *it = consumed_arg; // remove seen flag
 
         return (it != end_of_options_it);
     }
@@ -272,7 +276,7 @@ private:
                     arg.erase(pos, 1); // remove seen bool
 
                     if (arg == "-") // if flag is empty now
-                        arg = "";
+                        arg = consumed_arg;
 
                     return true;
                 }
@@ -514,16 +518,16 @@ private:
                     input_value = (*option_it).substr(id_size);
                 }
 
-                *option_it = ""; // remove used identifier-value pair
+                *option_it = consumed_arg; // remove used identifier-value pair
             }
             else // -key value
             {
-                *option_it = ""; // remove used identifier
+                *option_it = consumed_arg; // remove used identifier
                 ++option_it;
-                if (option_it == end_of_options_it) // should not happen
+                if (option_it == end_of_options_it || *option_it == consumed_arg) // there is no value left
                     throw too_few_arguments("Missing value for option " + prepend_dash(id));
                 input_value = *option_it;
-                *option_it = ""; // remove value
+                *option_it = consumed_arg; // remove value
             }
 
             auto res = parse_option_value(value, input_value);
@@ -646,7 +650,7 @@ private:
      * This function is used by format_parse::parse() AFTER all flags, options
      * and positional options specified by the developer were parsed and
      * therefore removed from arguments.
-     * Thus, all remaining non-empty arguments are too much.
+     * Thus, all remaining unconsumed arguments are too much.
      */
     void check_for_left_over_args()
     {
@@ -654,7 +658,7 @@ private:
                          arguments.end(),
                          [](std::string const & s)
                          {
-                             return (s != "");
+                             return (s != consumed_arg);
                          })
             != arguments.end())
             throw too_many_arguments("Too many arguments provided. Please see -h/--help for more information.");
@@ -739,11 +743,11 @@ private:
      * -#) arguments has been stripped from all known options and flags
      * -#) arguments has been checked for unknown options
      * -#) arguments does not contain "--" anymore
-     *  Thus we can simply iterate over non empty entries of arguments.
+     *  Thus we can simply iterate over the unconsumed entries of arguments.
      *
      * This function
      * - checks if the user did not provide enough arguments,
-     * - retrieves the next (no container type) or all (container type) remaining non empty value/s in arguments
+     * - retrieves the next (no container type) or all (container type) remaining unconsumed value/s in arguments
      */
     template <typename option_type, typename validator_type>
     void get_positional_option(option_type & value, validator_type && validator)
@@ -753,7 +757,7 @@ private:
                                arguments.end(),
                                [](std::string const & s)
                                {
-                                   return (s != "");
+                                   return (s != consumed_arg);
                                });
 
         if (it == arguments.end())
@@ -774,12 +778,12 @@ private:
                 std::string id = "positional option" + std::to_string(positional_option_count);
                 throw_on_input_error<option_type>(res, id, *it);
 
-                *it = ""; // remove arg from arguments
+                *it = consumed_arg; // remove arg from arguments
                 it = std::find_if(it,
                                   arguments.end(),
                                   [](std::string const & s)
                                   {
-                                      return (s != "");
+                                      return (s != consumed_arg);
                                   });
                 ++positional_option_count;
             }
@@ -790,7 +794,7 @@ private:
             std::string id = "positional option" + std::to_string(positional_option_count);
             throw_on_input_error<option_type>(res, id, *it);
 
-            *it = ""; // remove arg from arguments
+            *it = consumed_arg; // remove arg from arguments
         }
 
         try
-- 
2.43.0


From efa9be5757909b04e15e8757b7c43ce41a085395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:36 +0000
Subject: [PATCH 04/37] fix: arguments behind '--' are neither options nor
 special requests

---
 include/sharg/parser.hpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/sharg/parser.hpp b/include/sharg/parser.hpp
index 7f996ae..4da99cc 100644
--- a/include/sharg/parser.hpp
+++ b/include/sharg/parser.hpp
@@ -865,32 +865,42 @@ private:
             return false;
         };
 
+        bool end_of_options{false};
+
         // Process the arguments.
         for (; read_next_arg();)
         {
+            // All arguments behind `--` are plain arguments.
+            end_of_options = end_of_options || arg == option_end_identifier;
+
             // The argument is a known option.
-            if (options.contains(std::string{arg}))
+            if (!end_of_options && options.contains(std::string{arg}))
             {
                 // No futher checks are needed.
                 format_arguments.emplace_back(arg);
 
                 // Consume the next argument (the option value) if possible.
-                if (read_next_arg())
+                if (!read_next_arg())
+                    break; // Too few arguments. This is handled by format_parse.
+
+                end_of_options = arg == option_end_identifier;
+
+                if (!end_of_options)
                 {
                     format_arguments.emplace_back(arg);
                     continue;
                 }
-                else // Too few arguments. This is handled by format_parse.
-                {
-                    break;
-                }
             }
 
             // If we have a subcommand, all further arguments are passed to the subparser.
             if (found_subcommand())
                 break;
 
-            if (arg == "-h" || arg == "--help")
+            if (end_of_options)
+            {
+                format_arguments.emplace_back(arg);
+            }
+            else if (arg == "-h" || arg == "--help")
             {
                 format = detail::format_help{subcommands, version_check_dev_decision, false};
             }
-- 
2.43.0


From 67ff5ff7352dd8f9963b682b17fdf5fdc6f3a257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:21 +0000
Subject: [PATCH 05/37] fix: an unknown home or temporary directory does not
 abort the version check

---
 include/sharg/detail/version_check.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index b57c93d..7154e15 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -226,12 +226,17 @@ public:
 
         path tmp_path;
 
-        tmp_path = std::string{getenv(home_env_name)};
-        tmp_path /= ".config";
+        // The home directory may be unknown.
+        std::error_code err = std::make_error_code(std::errc::no_such_file_or_directory);
 
-        // First, create .config if it does not already exist.
-        std::error_code err;
-        create_directory(tmp_path, err);
+        if (char const * const home = std::getenv(home_env_name); home != nullptr)
+        {
+            tmp_path = home;
+            tmp_path /= ".config";
+
+            // First, create .config if it does not already exist.
+            create_directory(tmp_path, err);
+        }
 
         // If this did not fail we, create the seqan subdirectory.
         if (!err)
@@ -242,7 +247,10 @@ public:
 
         // .config/seqan cannot be created, try tmp directory.
         if (err)
-            tmp_path = temp_directory_path(); // choose temp dir instead
+            tmp_path = temp_directory_path(err); // choose temp dir instead
+
+        if (err)
+            return {}; // empty path signals no available directory to write to, version check will not be done
 
         // check if files can be written inside dir
         path dummy = tmp_path / "dummy.txt";
-- 
2.43.0


From 69af5f52526859d1c1f397695659add570db770f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:21 +0000
Subject: [PATCH 06/37] fix: no version check and no cookie in the working
 directory if there is no writable directory

---
 include/sharg/detail/version_check.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index 7154e15..e4a6b49 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -303,6 +303,9 @@ public:
         if (std::getenv("SHARG_NO_VERSION_CHECK") != nullptr) // environment variable was set
             return false;
 
+        if (cookie_path.empty()) // there is no directory to write to
+            return false;
+
         if (user_approval.has_value())
             return user_approval.value();
 
-- 
2.43.0


From 987ea30cccb893616f5ef7706736b70b18e9f424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:46 +0000
Subject: [PATCH 07/37] fix: a text that ends with a backslash is printed on
 the help page

---
 include/sharg/detail/format_help.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/sharg/detail/format_help.hpp b/include/sharg/detail/format_help.hpp
index 7f6d80c..4f2f93d 100644
--- a/include/sharg/detail/format_help.hpp
+++ b/include/sharg/detail/format_help.hpp
@@ -226,16 +226,24 @@ protected:
             if (*it == '\\')
             {
                 // Handle escape sequence, we interpret only "\-", "\fI", and "\fB".
-                ++it;
-                assert(it != str.end());
+                if (++it == str.end())
+                {
+                    result.push_back('\\');
+                    break;
+                }
+
                 if (*it == '-')
                 {
                     result.push_back(*it);
                 }
                 else if (*it == 'f')
                 {
-                    ++it;
-                    assert(it != str.end());
+                    if (++it == str.end())
+                    {
+                        result.append("\\f");
+                        break;
+                    }
+
                     if (*it == 'I')
                     {
                         if (stdout_is_terminal())
-- 
2.43.0


From da4cd606354259529c1f898c42574b1f9472188d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:46 +0000
Subject: [PATCH 08/37] fix: a synopsis without blanks is printed in bold

---
 include/sharg/detail/format_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sharg/detail/format_base.hpp b/include/sharg/detail/format_base.hpp
index 8689b44..d2a37c2 100644
--- a/include/sharg/detail/format_base.hpp
+++ b/include/sharg/detail/format_base.hpp
@@ -527,7 +527,7 @@ protected:
         {
             std::string text = "\\fB";
             text.append(meta.synopsis[i]);
-            text.insert(text.find_first_of(" \t"), "\\fP");
+            text.insert(std::min(text.find_first_of(" \t"), text.size()), "\\fP");
 
             derived_t().print_line(text, false);
         }
-- 
2.43.0


From 34fc22fb4e5c03b593b8f31387391f88292c35e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:37 +0000
Subject: [PATCH 09/37] fix: the width of a text matches what is printed

---
 include/sharg/detail/format_help.hpp | 46 ++++++++++------------------
 1 file changed, 17 insertions(+), 29 deletions(-)

diff --git a/include/sharg/detail/format_help.hpp b/include/sharg/detail/format_help.hpp
index 4f2f93d..8e3d51c 100644
--- a/include/sharg/detail/format_help.hpp
+++ b/include/sharg/detail/format_help.hpp
@@ -290,39 +290,27 @@ protected:
 
         for (unsigned i = 0; i < text.size(); ++i)
         {
-            if (text[i] != '\\')
+            if (text[i] == '\\' && i + 1 < text.size())
             {
-                result += 1;
-                continue;
-            }
-
-            if (i + 1 == text.size())
-            {
-                result += 1; // Will print "\\".
-                continue;
-            }
-
-            if (text[i + 1] == '\\' || text[i + 1] == '-')
-            {
-                i += 1;
-                result += 1;
-                continue; // Will print '\\' or '-'.
-            }
-
-            if (i + 2 == text.size())
-            {
-                i += 1;
-                result += 2; // Will print two chars.
-                continue;
-            }
-
-            if (text[i + 1] == 'f')
-            {
-                if (text[i + 2] == 'B' || text[i + 2] == 'I' || text[i + 2] == 'P')
-                    i += 2; // Skip f and {B, I, P}.
+                if (text[i + 1] == '-')
+                {
+                    i += 1; // Will print '-'.
+                }
+                else if (text[i + 1] == 'f' && i + 2 < text.size())
+                {
+                    i += 2;
+                    if (text[i] == 'B' || text[i] == 'I' || text[i] == 'P')
+                        continue; // Skip f and {B, I, P}.
+                    result += 2;  // Will print three chars.
+                }
                 else
+                {
+                    i += 1; // Will print two chars.
                     result += 1;
+                }
             }
+
+            result += 1;
         }
 
         return result;
-- 
2.43.0


From 44fd254805ce8c2f2d2abd703306646bcea64627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:18 +0000
Subject: [PATCH 10/37] fix: text on the HTML page is escaped and every mark-up
 is closed

---
 include/sharg/detail/format_html.hpp | 35 +++++++++++++++++++---------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/include/sharg/detail/format_html.hpp b/include/sharg/detail/format_html.hpp
index cfa93e4..12efbc3 100644
--- a/include/sharg/detail/format_html.hpp
+++ b/include/sharg/detail/format_html.hpp
@@ -176,21 +176,29 @@ private:
         std::string result;
         std::vector<std::string> open_tags; // acts as a stack of html tags
 
-        for (auto it = input.begin(); it != input.end(); ++it)
+        for (auto it = buffer.begin(); it != buffer.end(); ++it)
         {
             if (*it == '\\')
             {
                 // Handle escape sequence, we interpret only "\-", "\fI", and "\fB".
-                ++it;
-                assert(!(it == input.end()));
+                if (++it == buffer.end())
+                {
+                    result.push_back('\\');
+                    break;
+                }
+
                 if (*it == '-')
                 {
                     result.push_back(*it);
                 }
                 else if (*it == 'f')
                 {
-                    ++it;
-                    assert(!(it == input.end()));
+                    if (++it == buffer.end())
+                    {
+                        result.append("\\f");
+                        break;
+                    }
+
                     if (*it == 'I')
                     {
                         open_tags.push_back("em");
@@ -203,11 +211,13 @@ private:
                     }
                     else if (*it == 'P')
                     {
-                        assert(!open_tags.empty());
-                        result.append("</");
-                        result.append(open_tags.back());
-                        result.append(">");
-                        open_tags.pop_back();
+                        if (!open_tags.empty()) // nothing to close otherwise
+                        {
+                            result.append("</");
+                            result.append(open_tags.back());
+                            result.append(">");
+                            open_tags.pop_back();
+                        }
                     }
                     else
                     {
@@ -227,6 +237,9 @@ private:
             }
         }
 
+        for (; !open_tags.empty(); open_tags.pop_back())
+            result.append("</" + open_tags.back() + ">");
+
         return result;
     }
 
@@ -236,7 +249,7 @@ private:
      */
     std::string in_bold(std::string const & str)
     {
-        return "<strong>" + str + "</strong>";
+        return "\\fB" + str + "\\fP"; // converted by to_html
     }
 
     //!\brief Current state is either inside a html \<dl\> tag (true) or not (false).
-- 
2.43.0


From dc2d26f4c32855b206ed83ef1e90393dfac5ae6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:25 +0000
Subject: [PATCH 11/37] fix: text on the man page is never interpreted as a
 request

---
 include/sharg/detail/format_man.hpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/include/sharg/detail/format_man.hpp b/include/sharg/detail/format_man.hpp
index 96843c2..921815a 100644
--- a/include/sharg/detail/format_man.hpp
+++ b/include/sharg/detail/format_man.hpp
@@ -122,7 +122,7 @@ private:
         else if (!is_first_in_section && !line_is_paragraph)
             std::cout << ".br\n";
 
-        std::cout << text << "\n";
+        std::cout << protect(text) << "\n";
         is_first_in_section = false;
     }
 
@@ -137,7 +137,7 @@ private:
      */
     void print_list_item(std::string const & term, std::string const & desc)
     {
-        std::cout << ".TP\n" << term << "\n" << desc << "\n";
+        std::cout << ".TP\n" << protect(term) << "\n" << protect(desc) << "\n";
         is_first_in_section = false;
     }
 
@@ -147,6 +147,27 @@ private:
         // no footer
     }
 
+    /*!\brief Protects the lines of a text from being interpreted as requests.
+     * \param[in] text The text to print.
+     * \returns The text with a non-printing character in front of every control character that starts a line.
+     */
+    static std::string protect(std::string const & text)
+    {
+        std::string result;
+        bool is_line_start{true};
+
+        for (char const c : text)
+        {
+            if (is_line_start && (c == '.' || c == '\''))
+                result.append("\\&");
+
+            result.push_back(c);
+            is_line_start = c == '\n';
+        }
+
+        return result;
+    }
+
     /*!\brief Format string as in_bold.
      * \param[in] str The input string to format in bold.
      * \returns The string `str` wrapped in bold formatting.
-- 
2.43.0


From 083b592dfbfdce1ca1c7e6d846b677d97e5daece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:31 +0000
Subject: [PATCH 12/37] fix: the arithmetic_range_validator does not truncate
 values of other arithmetic types

---
 include/sharg/validators.hpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index f448d51..94f2163 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -16,6 +16,7 @@
 #include <fstream>
 #include <ranges>
 #include <regex>
+#include <utility>
 
 #include <sharg/detail/safe_filesystem_entry.hpp>
 #include <sharg/detail/to_string.hpp>
@@ -107,6 +108,24 @@ public:
             throw validation_error{"Value " + std::to_string(cmp) + " is not in range " + valid_range_str + "."};
     }
 
+    /*!\brief Tests whether a value of another arithmetic type lies inside [`min`, `max`] without converting it.
+     * \param cmp The value to be tested.
+     */
+    template <typename cmp_t>
+        requires (std::is_arithmetic_v<cmp_t> && !std::same_as<cmp_t, option_value_type>)
+    void operator()(cmp_t const & cmp) const
+    {
+        bool in_range{};
+
+        if constexpr (std::is_integral_v<cmp_t> && std::is_integral_v<option_value_type>)
+            in_range = std::cmp_less_equal(+cmp, +max) && std::cmp_greater_equal(+cmp, +min);
+        else
+            in_range = (cmp <= max) && (cmp >= min);
+
+        if (!in_range)
+            throw validation_error{"Value " + std::to_string(cmp) + " is not in range " + valid_range_str + "."};
+    }
+
     /*!\brief Tests whether every element in \p range lies inside [`min`, `max`].
      * \tparam range_type The type of range to check; must model std::ranges::forward_range. The value type must model
      *                    std::is_arithmetic_v.
-- 
2.43.0


From 1ad2743521ef52b10490260cb23f4725eb5560f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:31 +0000
Subject: [PATCH 13/37] fix: the value_list_validator does not truncate values
 of other arithmetic types

---
 include/sharg/validators.hpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index 94f2163..cd5a5dd 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -250,6 +250,27 @@ public:
             throw validation_error{detail::to_string("Value ", cmp, " is not one of ", values, ".")};
     }
 
+    /*!\brief Tests whether a value of another arithmetic type lies inside values without converting it.
+     * \param cmp The input value to check.
+     * \throws sharg::validation_error
+     */
+    template <typename cmp_t>
+        requires (std::is_arithmetic_v<cmp_t> && std::is_arithmetic_v<option_value_type>
+                  && !std::same_as<cmp_t, option_value_type>)
+    void operator()(cmp_t const & cmp) const
+    {
+        auto is_equal = [&cmp](option_value_type const & value) -> bool
+        {
+            if constexpr (std::is_integral_v<cmp_t> && std::is_integral_v<option_value_type>)
+                return std::cmp_equal(+cmp, +value);
+            else
+                return cmp == value;
+        };
+
+        if (std::ranges::none_of(values, is_equal))
+            throw validation_error{detail::to_string("Value ", cmp, " is not one of ", values, ".")};
+    }
+
     /*!\brief Tests whether every element in \p range lies inside values.
      * \tparam range_type The type of range to check; must model std::ranges::forward_range.
      * \param  range      The input range to iterate over and check every element.
-- 
2.43.0


From 3d2998427c896297c090abc4841034aa8a7967ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:31 +0000
Subject: [PATCH 14/37] fix: a file extension only matches behind a dot

---
 include/sharg/validators.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index cd5a5dd..0f173e4 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -432,7 +432,9 @@ protected:
         // Compares the extensions in lower case.
         auto case_insensitive_ends_with = [&](std::string const & ext)
         {
-            return case_insensitive_string_ends_with(file_path, ext);
+            // The extension must be preceded by a dot.
+            return case_insensitive_string_ends_with(file_path,
+                                                     ext.empty() || ext.front() == '.' ? ext : "." + ext);
         };
 
         // Check if requested extension is present.
-- 
2.43.0


From 4672ea86fa23fd29f74cb88d8f4ec5373c1d298f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:31 +0000
Subject: [PATCH 15/37] fix: the output_file_validator checks the extension
 before it touches the file

---
 include/sharg/validators.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index 0f173e4..f0b6bf0 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -770,10 +770,11 @@ public:
             if ((open_mode == output_file_open_options::create_new) && std::filesystem::exists(file))
                 throw validation_error{"The file \"" + file.string() + "\" already exists!"};
 
+            // Check extension. An invalid file name must not cause any change of the file system.
+            validate_filename(file);
+
             // Check if file has any write permissions.
             validate_writeability(file);
-
-            validate_filename(file);
         }
         // LCOV_EXCL_START
         catch (std::filesystem::filesystem_error & ex)
-- 
2.43.0


From 4caa5cf2b13efb57c7f8a0dccc13a4632470cbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:00 +0000
Subject: [PATCH 16/37] fix: probing an unwritable path neither removes an
 existing file nor aborts

---
 include/sharg/detail/version_check.hpp | 14 ++++++++------
 include/sharg/validators.hpp           |  7 +++++--
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index e4a6b49..1b9e6bc 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -255,14 +255,16 @@ public:
         // check if files can be written inside dir
         path dummy = tmp_path / "dummy.txt";
         std::ofstream file{dummy};
-        sharg::detail::safe_filesystem_entry file_guard{dummy};
+        bool is_good = file.is_open() && file.good();
 
-        bool is_open = file.is_open();
-        bool is_good = file.good();
-        file.close();
-        file_guard.remove_no_throw();
+        if (file.is_open())
+        {
+            sharg::detail::safe_filesystem_entry file_guard{dummy};
+            file.close();
+            file_guard.remove_no_throw();
+        }
 
-        if (!is_good || !is_open) // no write permissions
+        if (!is_good) // no write permissions
         {
             tmp_path.clear(); // empty path signals no available directory to write to, version check will not be done
         }
diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index f0b6bf0..37f120b 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -488,13 +488,16 @@ protected:
         // LCOV_EXCL_STOP
 
         std::ofstream file{path};
+
+        if (!file.is_open()) // An existing file must not be removed.
+            throw validation_error{"Cannot write \"" + path.string() + "\"!"};
+
         sharg::detail::safe_filesystem_entry file_guard{path};
 
-        bool is_open = file.is_open();
         bool is_good = file.good();
         file.close();
 
-        if (!is_good || !is_open)
+        if (!is_good)
             throw validation_error{"Cannot write \"" + path.string() + "\"!"};
 
         file_guard.remove();
-- 
2.43.0


From ca83852e48aa276c6e4006c7157b91b023890b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:00 +0000
Subject: [PATCH 17/37] fix: the output_directory_validator does not remove an
 existing file

---
 include/sharg/validators.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index 37f120b..2797619 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -971,7 +971,13 @@ public:
             }
             else
             {
-                validate_writeability(dir / "dummy.txt");
+                std::filesystem::path probe{dir / "dummy.txt"};
+
+                // Do not touch existing files.
+                for (size_t i = 0u; std::filesystem::exists(probe); ++i)
+                    probe = dir / ("dummy" + std::to_string(i) + ".txt");
+
+                validate_writeability(probe);
             }
         }
         // LCOV_EXCL_START
-- 
2.43.0


From 80cb2bd62ce8b51019709d885588099b857db2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:33 +0000
Subject: [PATCH 18/37] fix: a parser can be moved after options were added

---
 include/sharg/parser.hpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/include/sharg/parser.hpp b/include/sharg/parser.hpp
index 4da99cc..7aaefb9 100644
--- a/include/sharg/parser.hpp
+++ b/include/sharg/parser.hpp
@@ -243,14 +243,14 @@ public:
         check_parse_not_called("add_option");
         verify_option_config(config);
 
-        auto operation = [this, &value, config]()
+        auto operation = [&value, config](parser & self)
         {
             auto visit_fn = [&value, &config](auto & f)
             {
                 f.add_option(value, config);
             };
 
-            std::visit(std::move(visit_fn), format);
+            std::visit(std::move(visit_fn), self.format);
         };
 
         operations.push_back(std::move(operation));
@@ -279,14 +279,14 @@ public:
         if (value)
             throw design_error("A flag's default value must be false.");
 
-        auto operation = [this, &value, config]()
+        auto operation = [&value, config](parser & self)
         {
             auto visit_fn = [&value, &config](auto & f)
             {
                 f.add_flag(value, config);
             };
 
-            std::visit(std::move(visit_fn), format);
+            std::visit(std::move(visit_fn), self.format);
         };
 
         operations.push_back(std::move(operation));
@@ -330,14 +330,14 @@ public:
         if constexpr (detail::is_container_option<option_type>)
             has_positional_list_option = true; // keep track of a list option because there must be only one!
 
-        auto operation = [this, &value, config]()
+        auto operation = [&value, config](parser & self)
         {
             auto visit_fn = [&value, &config](auto & f)
             {
                 f.add_positional_option(value, config);
             };
 
-            std::visit(std::move(visit_fn), format);
+            std::visit(std::move(visit_fn), self.format);
         };
 
         operations.push_back(std::move(operation));
@@ -426,7 +426,7 @@ public:
 
         // Apply all defered operations to the parser, e.g., `add_option`, `add_flag`, `add_positional_option`.
         for (auto & operation : operations)
-            operation();
+            operation(*this);
 
         // The version check, which might exit the program, must be called before calling parse on the format.
         run_version_check();
@@ -533,14 +533,14 @@ public:
     {
         check_parse_not_called("add_section");
 
-        auto operation = [this, title, advanced_only]()
+        auto operation = [title, advanced_only](parser & self)
         {
             auto visit_fn = [&title, advanced_only](auto & f)
             {
                 f.add_section(title, advanced_only);
             };
 
-            std::visit(std::move(visit_fn), format);
+            std::visit(std::move(visit_fn), self.format);
         };
 
         operations.push_back(std::move(operation));
@@ -560,14 +560,14 @@ public:
     {
         check_parse_not_called("add_subsection");
 
-        auto operation = [this, title, advanced_only]()
+        auto operation = [title, advanced_only](parser & self)
         {
             auto visit_fn = [&title, advanced_only](auto & f)
             {
                 f.add_subsection(title, advanced_only);
             };
 
-            std::visit(std::move(visit_fn), format);
+            std::visit(std::move(visit_fn), self.format);
         };
 
         operations.push_back(std::move(operation));
@@ -588,14 +588,14 @@ public:
     {
         check_parse_not_called("add_line");
 
-        auto operation = [this, text, is_paragraph, advanced_only]()
+        auto operation = [text, is_paragraph, advanced_only](parser & self)
         {
             auto visit_fn = [&text, is_paragraph, advanced_only](auto & f)
             {
                 f.add_line(text, is_paragraph, advanced_only);
             };
 
-            std::visit(std::move(visit_fn), format);
+            std::visit(std::move(visit_fn), self.format);
         };
 
         operations.push_back(std::move(operation));
@@ -625,14 +625,14 @@ public:
     {
         check_parse_not_called("add_list_item");
 
-        auto operation = [this, key, desc, advanced_only]()
+        auto operation = [key, desc, advanced_only](parser & self)
         {
             auto visit_fn = [&key, &desc, advanced_only](auto & f)
             {
                 f.add_list_item(key, desc, advanced_only);
             };
 
-            std::visit(std::move(visit_fn), format);
+            std::visit(std::move(visit_fn), self.format);
         };
 
         operations.push_back(std::move(operation));
@@ -776,7 +776,7 @@ private:
     std::unordered_set<std::string> options{};
 
     //!\brief Vector of functions that stores all calls.
-    std::vector<std::function<void()>> operations;
+    std::vector<std::function<void(parser &)>> operations;
 
     /*!\brief Handles format and subcommand detection.
      * \throws sharg::too_few_arguments if option --export-help was specified without a value
-- 
2.43.0


From 0b25df255efa1bbfb35ab842e9159a73d95c0703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:05 +0000
Subject: [PATCH 19/37] fix: subcommands cannot be added after parse() was
 called

---
 include/sharg/parser.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sharg/parser.hpp b/include/sharg/parser.hpp
index 7aaefb9..5ded512 100644
--- a/include/sharg/parser.hpp
+++ b/include/sharg/parser.hpp
@@ -651,6 +651,8 @@ public:
      */
     void add_subcommands(std::vector<std::string> const & subcommands)
     {
+        check_parse_not_called("add_subcommands");
+
         auto & parser_subcommands = this->subcommands;
         parser_subcommands.insert(parser_subcommands.end(), subcommands.cbegin(), subcommands.cend());
 
-- 
2.43.0


From 3622fb602573f683412aae642af72df84123a1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:21 +0000
Subject: [PATCH 20/37] fix: is_option_set does not mistake the value of an
 option for an option

---
 include/sharg/parser.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/sharg/parser.hpp b/include/sharg/parser.hpp
index 5ded512..af2f1eb 100644
--- a/include/sharg/parser.hpp
+++ b/include/sharg/parser.hpp
@@ -512,8 +512,19 @@ public:
 
         // we only need to search for an option before the `option_end_identifier` (`--`)
         auto option_end = std::find(format_arguments.begin(), format_arguments.end(), option_end_identifier);
-        auto option_it = detail::format_parse::find_option_id(format_arguments.begin(), option_end, short_or_long_id);
-        return option_it != option_end;
+
+        for (auto it = format_arguments.begin(); it != option_end; ++it)
+        {
+            auto const next = std::next(it);
+
+            if (detail::format_parse::find_option_id(it, next, short_or_long_id) != next)
+                return true;
+
+            if (options.contains(*it) && next != option_end) // The next argument is the value of another option.
+                it = next;
+        }
+
+        return false;
     }
 
     //!\name Structuring the Help Page
-- 
2.43.0


From 88b34c5a61b59e8700471645ff66222c43142acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:27 +0000
Subject: [PATCH 21/37] fix: a list keeps the values of both of its identifiers

---
 include/sharg/detail/format_parse.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index 4af6743..10d49d7 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -578,7 +578,7 @@ private:
      * \details
      *
      * Since option_type is a container, the option is a list and can be parsed
-     * multiple times.
+     * multiple times. The values are appended.
      *
      */
     template <detail::is_container_option option_type, typename id_type>
@@ -587,9 +587,6 @@ private:
         auto it = find_option_id(arguments.begin(), end_of_options_it, id);
         bool seen_at_least_once{it != end_of_options_it};
 
-        if (seen_at_least_once)
-            value.clear();
-
         while (it != end_of_options_it)
         {
             identify_and_retrieve_option_value(value, it, id);
@@ -684,6 +681,14 @@ private:
     template <typename option_type, typename validator_t>
     void get_option(option_type & value, config<validator_t> const & config)
     {
+        // The values of a list replace its default, no matter by which of its identifiers they are given.
+        if constexpr (detail::is_container_option<option_type>)
+        {
+            if (find_option_id(arguments.begin(), end_of_options_it, config.short_id) != end_of_options_it
+                || find_option_id(arguments.begin(), end_of_options_it, config.long_id) != end_of_options_it)
+                value.clear();
+        }
+
         bool short_id_is_set{get_option_by_id(value, config.short_id)};
         bool long_id_is_set{get_option_by_id(value, config.long_id)};
 
-- 
2.43.0


From 1eb10df6b6004733ce85e18786ad520c5595e8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:22 +0000
Subject: [PATCH 22/37] fix: overflow in the value of a list is reported, not
 dropped

---
 include/sharg/detail/format_parse.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index 10d49d7..c64c654 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -465,14 +465,22 @@ private:
                                    + get_type_name_as_string(option_type{}) + "."};
         }
 
-        if constexpr (std::is_arithmetic_v<option_type>)
+        if (res == option_parse_result::overflow_error)
         {
-            if (res == option_parse_result::overflow_error)
+            auto throw_overflow_error = [&]<typename value_type>(value_type)
             {
-                throw user_input_error{msg + "Numeric argument " + input_value + " is not in the valid range ["
-                                       + std::to_string(std::numeric_limits<option_type>::min()) + ","
-                                       + std::to_string(std::numeric_limits<option_type>::max()) + "]."};
-            }
+                if constexpr (std::is_arithmetic_v<value_type>)
+                {
+                    throw user_input_error{msg + "Numeric argument " + input_value + " is not in the valid range ["
+                                           + std::to_string(std::numeric_limits<value_type>::min()) + ","
+                                           + std::to_string(std::numeric_limits<value_type>::max()) + "]."};
+                }
+            };
+
+            if constexpr (detail::is_container_option<option_type>)
+                throw_overflow_error(typename option_type::value_type{});
+            else
+                throw_overflow_error(option_type{});
         }
 
         assert(res == option_parse_result::success); // if nothing was thrown, the result must have been a success
-- 
2.43.0


From f421ac927b30e2f72e149bc57fd1f16e2faf6678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:55 +0000
Subject: [PATCH 23/37] fix: the value of a std::filesystem::path option is
 taken verbatim

---
 include/sharg/detail/format_parse.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index c64c654..f58398b 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -359,6 +359,13 @@ private:
         value = in;
         return option_parse_result::success;
     }
+
+    // The stream operator of std::filesystem::path expects quotes: it would stop at blanks and interpret the text.
+    option_parse_result parse_option_value(std::filesystem::path & value, std::string const & in)
+    {
+        value = in;
+        return option_parse_result::success;
+    }
     //!\endcond
 
     /*!\brief Parses the given option value and appends it to the target container.
-- 
2.43.0


From 652dcf64c85beb6fe875b1d8e1b7830e2614eb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:29 +0000
Subject: [PATCH 24/37] fix: the identifier version-check is reserved

---
 include/sharg/parser.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/sharg/parser.hpp b/include/sharg/parser.hpp
index af2f1eb..e6cf1d9 100644
--- a/include/sharg/parser.hpp
+++ b/include/sharg/parser.hpp
@@ -774,7 +774,14 @@ private:
         format{detail::format_short_help{}};
 
     //!\brief List of option/flag identifiers (excluding -/--) that are already used.
-    std::unordered_set<std::string> used_ids{"h", "hh", "help", "advanced-help", "export-help", "version", "copyright"};
+    std::unordered_set<std::string> used_ids{"h",
+                                             "hh",
+                                             "help",
+                                             "advanced-help",
+                                             "export-help",
+                                             "version",
+                                             "version-check",
+                                             "copyright"};
 
     //!\brief The command line arguments that will be passed to the format.
     std::vector<std::string> format_arguments{};
-- 
2.43.0


From cd9a0f4b275d73e5258d8abc065a22f520aabb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:55 +0000
Subject: [PATCH 25/37] fix: subcommands cannot be added to a parser with
 positional options

---
 include/sharg/parser.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/sharg/parser.hpp b/include/sharg/parser.hpp
index e6cf1d9..635c151 100644
--- a/include/sharg/parser.hpp
+++ b/include/sharg/parser.hpp
@@ -327,6 +327,8 @@ public:
         check_parse_not_called("add_positional_option");
         verify_positional_option_config(config);
 
+        has_positional_option = true; // keep track of positional options because they exclude subcommands!
+
         if constexpr (detail::is_container_option<option_type>)
             has_positional_list_option = true; // keep track of a list option because there must be only one!
 
@@ -651,6 +653,10 @@ public:
 
     /*!\brief Adds subcommands to the parser.
      * \param[in] subcommands A list of subcommands.
+     *
+     * \throws sharg::design_error if sharg::parser::parse was already called.
+     * \throws sharg::design_error if there are positional options.
+     *
      * \details
      * Adds subcommands to the current parser. The list of subcommands is sorted and duplicates are removed.
      *
@@ -664,6 +670,9 @@ public:
     {
         check_parse_not_called("add_subcommands");
 
+        if (has_positional_option && !subcommands.empty())
+            throw design_error{"You may only specify flags and options for the top-level parser."};
+
         auto & parser_subcommands = this->subcommands;
         parser_subcommands.insert(parser_subcommands.end(), subcommands.cbegin(), subcommands.cend());
 
@@ -729,6 +738,9 @@ private:
     //!\brief Keeps track of whether the parse function has been called already.
     bool parse_was_called{false};
 
+    //!\brief Keeps track of whether the user has added a positional option.
+    bool has_positional_option{false};
+
     //!\brief Keeps track of whether the user has added a positional list option to check if this was the very last.
     bool has_positional_list_option{false};
 
-- 
2.43.0


From a9b2636113ca6dd48773e4858d666e6b3625572c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:14 +0000
Subject: [PATCH 26/37] fix: input_file_validator accepted a directory as an
 input file

---
 include/sharg/validators.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index 2797619..281c2c4 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -612,6 +612,10 @@ public:
             if (!std::filesystem::exists(file))
                 throw validation_error{"The file \"" + file.string() + "\" does not exist!"};
 
+            // A directory is not a file.
+            if (std::filesystem::is_directory(file))
+                throw validation_error{"\"" + file.string() + "\" is a directory. Expected a file."};
+
             // Check if file is regular and can be opened for reading.
             validate_readability(file);
 
-- 
2.43.0


From 386629c748592571b90eb045b9ea317341379b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:45 +0000
Subject: [PATCH 27/37] fix: output validators let filesystem_error escape
 instead of validation_error

---
 include/sharg/validators.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index 281c2c4..b042e73 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -769,11 +769,11 @@ public:
      */
     virtual void operator()(std::filesystem::path const & file) const override
     {
-        if (std::filesystem::is_directory(file))
-            throw validation_error{"\"" + file.string() + "\" is a directory. Expected a file."};
-
         try
         {
+            if (std::filesystem::is_directory(file))
+                throw validation_error{"\"" + file.string() + "\" is a directory. Expected a file."};
+
             if ((open_mode == output_file_open_options::create_new) && std::filesystem::exists(file))
                 throw validation_error{"The file \"" + file.string() + "\" already exists!"};
 
@@ -957,10 +957,10 @@ public:
      */
     virtual void operator()(std::filesystem::path const & dir) const override
     {
-        bool dir_exists = std::filesystem::exists(dir);
         // Make sure the created dir is deleted after we are done.
         std::error_code ec;
-        std::filesystem::create_directory(dir, ec); // does nothing and is not treated as error if path already exists.
+        // does nothing and is not treated as error if path already exists.
+        bool const dir_exists = !std::filesystem::create_directory(dir, ec);
         // if error code was set or if dummy.txt could not be created within the output dir, throw an error.
         if (static_cast<bool>(ec))
             throw validation_error{"Cannot create directory: \"" + dir.string() + "\"!"};
-- 
2.43.0


From 349a8a76eb888efe759aa6ea440f2fcada35b927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:25 +0000
Subject: [PATCH 28/37] fix: safe_filesystem_entry terminated the program when
 the removal was refused

---
 include/sharg/detail/safe_filesystem_entry.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/sharg/detail/safe_filesystem_entry.hpp b/include/sharg/detail/safe_filesystem_entry.hpp
index 2c7104f..eab66fe 100644
--- a/include/sharg/detail/safe_filesystem_entry.hpp
+++ b/include/sharg/detail/safe_filesystem_entry.hpp
@@ -52,10 +52,8 @@ public:
     //!\brief Calls std::filesystem::remove_all on the wrapped entry.
     ~safe_filesystem_entry()
     {
-        std::error_code ec;
+        std::error_code ec; // The removal may be refused, e.g. by permissions. This must not terminate the program.
         std::filesystem::remove_all(entry, ec);
-
-        assert(!static_cast<bool>(ec));
     }
     //!\}
 
-- 
2.43.0


From f8ee9d19badfaaf4c855a59da19722bc456c8b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:34 +0000
Subject: [PATCH 29/37] fix: output_file_validator truncated an existing file
 that it then rejected

---
 include/sharg/validators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index b042e73..cf8827f 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -487,7 +487,7 @@ protected:
             throw validation_error{"\"" + path.string() + "\" is a directory. Cannot validate writeability."};
         // LCOV_EXCL_STOP
 
-        std::ofstream file{path};
+        std::ofstream file{path, std::ios::app}; // Opening must not discard the content of an existing file.
 
         if (!file.is_open()) // An existing file must not be removed.
             throw validation_error{"Cannot write \"" + path.string() + "\"!"};
-- 
2.43.0


From d082a0afae7a4a100000b6a4d8a5bc178960a301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:36 +0000
Subject: [PATCH 30/37] fix: assigning to a safe_filesystem_entry dropped the
 entry it had guarded

---
 include/sharg/detail/safe_filesystem_entry.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/sharg/detail/safe_filesystem_entry.hpp b/include/sharg/detail/safe_filesystem_entry.hpp
index eab66fe..25089e2 100644
--- a/include/sharg/detail/safe_filesystem_entry.hpp
+++ b/include/sharg/detail/safe_filesystem_entry.hpp
@@ -12,6 +12,7 @@
 #include <cassert>
 #include <filesystem>
 #include <system_error>
+#include <utility>
 
 #include <sharg/platform.hpp>
 
@@ -41,7 +42,13 @@ public:
     safe_filesystem_entry(safe_filesystem_entry const &) = delete;             //!< Deleted.
     safe_filesystem_entry(safe_filesystem_entry &&) = default;                 //!< Defaulted.
     safe_filesystem_entry & operator=(safe_filesystem_entry const &) = delete; //!< Deleted.
-    safe_filesystem_entry & operator=(safe_filesystem_entry &&) = default;     //!< Defaulted.
+
+    //!\brief Swaps the managed entries: The entry of the left-hand side is still removed, by the other guard.
+    safe_filesystem_entry & operator=(safe_filesystem_entry && other) noexcept
+    {
+        std::swap(entry, other.entry);
+        return *this;
+    }
 
     /*!\brief Constructs the safe guard from a std::filesystem::path.
      * \param p The path pointing to a filesystem entry.
-- 
2.43.0


From f1bc35f17adf95d4db964c486d65b1a6418d0f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:41 +0000
Subject: [PATCH 31/37] fix: exported help pages show advanced options

---
 include/sharg/parser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sharg/parser.hpp b/include/sharg/parser.hpp
index 635c151..36ea0ea 100644
--- a/include/sharg/parser.hpp
+++ b/include/sharg/parser.hpp
@@ -964,9 +964,9 @@ private:
                 }
 
                 if (arg == "html")
-                    format = detail::format_html{subcommands, version_check_dev_decision};
+                    format = detail::format_html{subcommands, version_check_dev_decision, true};
                 else if (arg == "man")
-                    format = detail::format_man{subcommands, version_check_dev_decision};
+                    format = detail::format_man{subcommands, version_check_dev_decision, true};
                 else if (arg == "ctd")
                     format = detail::format_tdl{detail::format_tdl::FileFormat::CTD};
                 else if (arg == "cwl")
-- 
2.43.0


From 2b03b52974d47114c45218d20562b445b70c4fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:53 +0000
Subject: [PATCH 32/37] fix: protect the short description on man pages

---
 include/sharg/detail/format_man.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sharg/detail/format_man.hpp b/include/sharg/detail/format_man.hpp
index 921815a..e5a16c3 100644
--- a/include/sharg/detail/format_man.hpp
+++ b/include/sharg/detail/format_man.hpp
@@ -79,7 +79,7 @@ private:
         std::cout << " " << meta.version << "\" \"" << meta.man_page_title << "\"\n";
 
         // Print NAME section.
-        std::cout << ".SH NAME\n" << meta.app_name << " \\- " << meta.short_description << std::endl;
+        std::cout << ".SH NAME\n" << protect(meta.app_name + " \\- " + meta.short_description) << std::endl;
     }
 
     /*!\brief Prints a section title in man page format to std::cout.
-- 
2.43.0


From d782120a3356c5682ef2b8604517fd9c265990d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:38 +0000
Subject: [PATCH 33/37] fix: quote the path of the version file in the command
 of the version check

---
 include/sharg/detail/version_check.hpp | 29 ++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index 1b9e6bc..fc55164 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -182,12 +182,13 @@ public:
             return;
         }
 
-        // 'cookie_path' is no user input and `name` is escaped on construction of the parser.
+        // The path depends on the environment and may contain any character. `name` is escaped on construction of the
+        // parser.
         std::filesystem::path out_file = cookie_path / (name + ".version");
 
         // build up command for server call
         std::string command = program + // no user defined input
-                              " " + out_file.string() + " "
+                              " " + quote(out_file.string()) + " "
                             + std::string{"https://seqan-update.informatik.uni-tuebingen.de/check/SeqAn-Sharg_"} +
 #ifdef __linux
                               "Linux" +
@@ -471,6 +472,30 @@ private:
 #endif     // defined(_WIN32)
     }
 
+    /*!\brief Quotes a string such that the shell reads it as a single, literal word.
+     * \param[in] str The string to quote.
+     * \returns The string in single quotes.
+     */
+    static std::string quote(std::string const & str)
+    {
+        std::string result{"'"};
+
+        for (char const c : str)
+        {
+            if (c == '\'')
+#if defined(_WIN32)
+                result.append("'");
+#else // Unix based platforms: Leave the quotes for an escaped single quote.
+                result.append("'\\'");
+#endif
+            result.push_back(c);
+        }
+
+        result.push_back('\'');
+
+        return result;
+    }
+
     //!\brief Reads the timestamp file if possible and returns the time difference to the current time.
     double get_time_diff_to_current(std::string const & str_time) const
     {
-- 
2.43.0


From c7c9483c6ec71b338d44140c1a94f5f871af4bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:24 +0000
Subject: [PATCH 34/37] fix: an inaccessible directory of the version check
 does not abort the parser

---
 include/sharg/detail/version_check.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index fc55164..ab1a079 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -313,7 +313,7 @@ public:
             return user_approval.value();
 
         // version check was not explicitly handled so let's check the cookie
-        if (std::filesystem::exists(cookie_path))
+        if (std::error_code err{}; std::filesystem::exists(cookie_path, err)) // an inaccessible directory is no error
         {
             std::ifstream timestamp_file{timestamp_filename};
             std::string cookie_line{};
-- 
2.43.0


From 38351bb33f2d539c622e5459933a6ddff2b0d189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:57 +0000
Subject: [PATCH 35/37] fix: lists of 8 bit integers are printed as numbers

---
 include/sharg/detail/to_string.hpp | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/include/sharg/detail/to_string.hpp b/include/sharg/detail/to_string.hpp
index a8e90a6..bcabde8 100644
--- a/include/sharg/detail/to_string.hpp
+++ b/include/sharg/detail/to_string.hpp
@@ -41,7 +41,21 @@ std::string to_string(value_types &&... values)
 {
     std::stringstream stream;
 
-    auto print = [&stream](auto && val)
+    auto print_value = [&stream](auto && val)
+    {
+        using value_t = std::remove_cvref_t<decltype(val)>;
+
+        if constexpr (std::is_same_v<value_t, int8_t> || std::is_same_v<value_t, uint8_t>)
+        {
+            stream << static_cast<int16_t>(val);
+        }
+        else
+        {
+            stream << val;
+        }
+    };
+
+    auto print = [&stream, &print_value](auto && val)
     {
         using value_t = std::remove_cvref_t<decltype(val)>;
 
@@ -57,19 +71,18 @@ std::string to_string(value_types &&... values)
             {
                 stream << '[';
                 auto it = val.begin();
-                stream << *it++;
+                print_value(*it++);
                 for (; it != val.end(); ++it)
-                    stream << ", " << *it;
+                {
+                    stream << ", ";
+                    print_value(*it);
+                }
                 stream << ']';
             }
         }
-        else if constexpr (std::is_same_v<value_t, int8_t> || std::is_same_v<value_t, uint8_t>)
-        {
-            stream << static_cast<int16_t>(val);
-        }
         else
         {
-            stream << val;
+            print_value(val);
         }
     };
 
-- 
2.43.0


From 9e90ff0c24e88de20c86ae64316186551fa912e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:46 +0000
Subject: [PATCH 36/37] fix: an output file given as a dangling symbolic link
 left traces

With create_new, a symbolic link that leads nowhere counted as a missing file:
The check created what it leads to, left that behind and removed the link.
With open_or_create, what the link leads to was left behind, too.
---
 include/sharg/validators.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index cf8827f..83e3ad7 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -487,12 +487,18 @@ protected:
             throw validation_error{"\"" + path.string() + "\" is a directory. Cannot validate writeability."};
         // LCOV_EXCL_STOP
 
+        // Opening a symbolic link that leads nowhere creates the file it leads to. That file is to be removed again.
+        std::filesystem::path created{path};
+        if (!std::filesystem::exists(path))
+            while (std::filesystem::is_symlink(created))
+                created = created.parent_path() / std::filesystem::read_symlink(created);
+
         std::ofstream file{path, std::ios::app}; // Opening must not discard the content of an existing file.
 
         if (!file.is_open()) // An existing file must not be removed.
             throw validation_error{"Cannot write \"" + path.string() + "\"!"};
 
-        sharg::detail::safe_filesystem_entry file_guard{path};
+        sharg::detail::safe_filesystem_entry file_guard{created};
 
         bool is_good = file.good();
         file.close();
@@ -774,7 +780,9 @@ public:
             if (std::filesystem::is_directory(file))
                 throw validation_error{"\"" + file.string() + "\" is a directory. Expected a file."};
 
-            if ((open_mode == output_file_open_options::create_new) && std::filesystem::exists(file))
+            // A symbolic link exists as well, even if it leads nowhere.
+            if ((open_mode == output_file_open_options::create_new)
+                && std::filesystem::exists(std::filesystem::symlink_status(file)))
                 throw validation_error{"The file \"" + file.string() + "\" already exists!"};
 
             // Check extension. An invalid file name must not cause any change of the file system.
-- 
2.43.0


From ba76729818ced4af71972ac4990eb203f9d07c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:33 +0000
Subject: [PATCH 37/37] fix: line breaks in titles, date and version broke the
 requests of the man page

---
 include/sharg/detail/format_man.hpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/include/sharg/detail/format_man.hpp b/include/sharg/detail/format_man.hpp
index e5a16c3..e719287 100644
--- a/include/sharg/detail/format_man.hpp
+++ b/include/sharg/detail/format_man.hpp
@@ -9,6 +9,8 @@
 
 #pragma once
 
+#include <algorithm>
+
 #include <sharg/detail/format_base.hpp>
 
 namespace sharg::detail
@@ -68,7 +70,7 @@ private:
                        {
                            return std::toupper(c);
                        });
-        std::cout << " " << std::to_string(meta.man_page_section) << " \"" << meta.date << "\" \"";
+        std::cout << " " << std::to_string(meta.man_page_section) << " \"" << one_line(meta.date) << "\" \"";
         std::transform(meta.app_name.begin(),
                        meta.app_name.end(),
                        out,
@@ -76,7 +78,7 @@ private:
                        {
                            return std::tolower(c);
                        });
-        std::cout << " " << meta.version << "\" \"" << meta.man_page_title << "\"\n";
+        std::cout << " " << one_line(meta.version) << "\" \"" << one_line(meta.man_page_title) << "\"\n";
 
         // Print NAME section.
         std::cout << ".SH NAME\n" << protect(meta.app_name + " \\- " + meta.short_description) << std::endl;
@@ -88,9 +90,10 @@ private:
     void print_section(std::string const & title)
     {
         std::ostream_iterator<char> out(std::cout);
+        std::string const line{one_line(title)};
         std::cout << ".SH ";
-        std::transform(title.begin(),
-                       title.end(),
+        std::transform(line.begin(),
+                       line.end(),
                        out,
                        [](unsigned char c)
                        {
@@ -105,7 +108,7 @@ private:
      */
     void print_subsection(std::string const & title)
     {
-        std::cout << ".SS " << title << "\n";
+        std::cout << ".SS " << one_line(title) << "\n";
         is_first_in_section = true;
     }
 
@@ -168,6 +171,16 @@ private:
         return result;
     }
 
+    /*!\brief Keeps a text on the line of a request.
+     * \param[in] text The text to print.
+     * \returns The text with a blank in place of every line break.
+     */
+    static std::string one_line(std::string text)
+    {
+        std::replace(text.begin(), text.end(), '\n', ' ');
+        return text;
+    }
+
     /*!\brief Format string as in_bold.
      * \param[in] str The input string to format in bold.
      * \returns The string `str` wrapped in bold formatting.
-- 
2.43.0

