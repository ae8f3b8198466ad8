#!/usr/bin/env python3
"""Rewrites the "fixed:" lines of known-findings.txt from the fix commits of /repo (run by hand from /verif)."""
import subprocess
M = {"329d893":"P04","f511326":"P04","59f6928":"P06","efa9be5":"P05","67ff5ff":"P28","69af5f5":"P28","987ea30":"P25","da4cd60":"P25","34fc22f":"P25","44fd254":"P26","dc2d26f":"P27","083b592":"P18","1ad2743":"P19","3d29984":"P22","4672ea8":"P23","4caa5cf":"P23","ca83852":"P23","80cb2bd":"P35","0b25df2":"P12","3622fb6":"P17","88b34c5":"P02","1eb10df":"P08","f421ac9":"P09","652dcf6":"P11","cd9a0f4":"P12","a9b2636":"P22","386629c":"P23","349a8a7":"P31","f8ee9d1":"P23","d082a0a":"P31","f1bc35f":"P24","2b03b52":"P27","d782120":"P30","c7c9483":"P28","38351bb":"P32","9e90ff0":"P23","ba76729":"P27"}
W = {
"9e90ff0":"an output file given as a dangling symbolic link: the link was removed and the file it leads to created",
"ba76729":"a line break in a section title, the date, version or title started a request of the man page",
"329d893":"a short flag was also found (and removed from a positional) behind '--'",
"f511326":"a group of short flags that contains a dash (-a-b) set its flags / ended in a wrong error",
"59f6928":"empty positional arguments ('') were dropped, so positionals shifted",
"efa9be5":"tokens behind '--' (-h, --version, --version-check, ...) were still interpreted",
"67ff5ff":"HOME or the temporary directory unusable: filesystem_error from the constructor aborted the program",
"69af5f5":"without a writable directory the version check ran and stored its files in the working directory",
"987ea30":"a text that ends with a backslash or \\f read beyond its end / was dropped",
"da4cd60":"a synopsis without blanks was cut / not printed in bold",
"34fc22f":"mark-up counted as width, so lines were broken too early",
"44fd254":"text on the HTML page was not escaped and mark-up left elements open",
"dc2d26f":"a text line starting with '.' or an apostrophe was interpreted as a roff request",
"083b592":"arithmetic_range_validator<int8_t> accepted 256 + x (values of another type were truncated)",
"1ad2743":"value_list_validator truncated values of another arithmetic type",
"3d29984":"extension 'txt' matched a file 'atxt.b.xtxt', i.e. not behind a dot",
"4672ea8":"output_file_validator created/truncated the file before it rejected the extension",
"4caa5cf":"an unwritable existing file was removed, or the program terminated",
"ca83852":"output_directory_validator overwrote and removed an existing dummy.txt",
"80cb2bd":"moving a parser after add_option left operations that referred to the moved-from parser",
"0b25df2":"add_subcommands after parse() was accepted",
"3622fb6":"is_option_set mistook the value of another option for the option",
"88b34c5":"a list given by both ids lost the values given by the short id",
"1eb10df":"an overflowing element of a list option was silently dropped",
"f421ac9":"a path option was read with operator>>: blanks were rejected, quotes removed",
"652dcf6":"an option could shadow version-check",
"cd9a0f4":"add_subcommands was accepted on a parser with positional options",
"a9b2636":"input_file_validator accepted a directory",
"386629c":"filesystem_error instead of validation_error from output validators",
"349a8a7":"~safe_filesystem_entry called std::terminate when the removal was refused",
"f8ee9d1":"output_file_validator truncated a file that it then rejected",
"d082a0a":"move assignment of safe_filesystem_entry dropped the entry of the left-hand side",
"f1bc35f":"exported pages did not show advanced options",
"2b03b52":"the short description on the man page was not protected",
"d782120":"the path of the version file reached the shell unquoted",
"c7c9483":"an inaccessible directory made decide_if_check_is_performed throw",
"38351bb":"lists of 8-bit integers were printed as characters",
}
t=open('known-findings.txt').read()
t='\n'.join(l for l in t.split('\n') if l.startswith('finding:'))+'\n'
for l in subprocess.run("git -C /repo log --reverse --format=%h 3ec3fa9..HEAD",shell=True,stdout=-1,text=True).stdout.split():
    t+="fixed: property=%s %s %s\n"%(M[l],l,W[l])
open('known-findings.txt','w').write(t)
