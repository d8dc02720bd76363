"""known_findings.json: defects repaired in /repo (status fixed) and recorded ones (status finding)"""
import json, os
F = [
 ('C05', '7f26d09', 'sliding backwards over an empty container or after the front was reached returned elements outside the container'),
 ('C01', '3452cb5', 'dup and shrink of an empty vector or pointer list terminated the process instead of working'),
 ('C12', '91d5379', 'strip, strip_punct and strip_c read before the text of an all-blank or empty string'),
 ('C11', '3dd4b16', 'remove_last / replace_last used a wrong position or crashed when the substring is absent'),
 ('C10', '535fd47', 'an empty needle made can_find and remove_all loop forever'),
 ('C13', '37b0bba', 'split of a text with repeated trailing separators did not terminate / produced junk'),
 ('C13', 'c75d914', 'split_between took the first right marker even when it precedes the left one'),
 ('C09', 'e159a17', 'insert_n past the end of the text wrote outside the string'),
 ('C14', '94664d6', 'growing a view reallocated memory the string does not own'),
 ('C09', 'b930411', 'insert_after terminated when the substring is at the very end'),
 ('C09', '6561004', 'setting, appending or creating with an empty C string terminated the process'),
 ('C09', '7daeb29', 'formatted set did not count the terminator and missed formatting failures'),
]
F.append(('C24', 'abe9991', 'a span over [0; n) was rejected and empty or reversed ranges were accepted'))
F += [
 ('C17', '5b1dfa7', 'gcd and lcm divided by zero when an argument is 0'),
 ('C17', '0c111d0', 'is_close ignored the documented default for a negative tolerance'),
 ('C19', '691fadc', 'century years that are not multiples of 400 were leap years'),
 ('C19', '56219c5', 'week day and year day of dates before 1970 were reported as failures'),
 ('C19', '7cf4176', 'an unset or invalid year was read as 3800 instead of 1900'),
 ('C20', '00523cb', 'the time stamp check read past the end of short text and accepted wrong separators'),
]
F += [
 ('C26', 'e629c3e', 'close the socket when server or client start-up fails'),
 ('C23', 'cce8acc', 'reading an empty file terminates the process'),
 ('C23', 'be1fc42', 'file writing reports success when the data could not be written'),
 ('C21', 'd5319f3', 'vt_path_get_cwd hands libc memory to the given allocator and exits on failure'),
 ('C21', 'ac563b7', 'vt_path_pop reads and writes before the start of an empty path'),
 ('C21', 'c3d6340', 'vt_path_basename yields garbage without an inner separator and copies overlapping text'),
 ('C28', '3b1a0c9', 'vt_path_mkdir_parents reports success when a directory could not be created'),
 ('C28', '0b4d391', 'vt_path_rmdir_recurse follows symbolic links and deletes files outside of the directory'),
 ('C28', '70d3e6d', 'vt_path_rmdir_recurse ignores that the directory itself could not be removed'),
 ('C28', '0cab482', 'vt_path_mkdir_parents does not create a directory given without parents'),
 ('C21', '503e8fe', 'vt_path_expand_tilda terminates the process for a lone tilda'),
 ('C21', '73eaa14', 'vt_path_get_this_exe_location leaves the path without a terminator'),
 ('C28', 'f8a77f4', 'vt_path_dir_free leaks the strings before the position of the slider'),
 ('C27', 'a7f76ac', 'vt_debug_printf and vt_debug_assert close stderr when the redirect file cannot be opened, so nothing is reported afterwards'),
 ('C27', 'f3b5817', 'vt_log drops the message, and does not end the process for a fatal or assert level, when the log file cannot be opened'),
 ('C25', '4aa4c85', 'a C string option value is copied past the end of the reallocated buffer and keeps the tail of a longer old value'),
]
FINDINGS = [
 dict(property='C19', function='vt_datetime_diff', input='2023-05-25 18:40:00 minus 2023-05-19 20:31:01',
      what='vt_datetime_diff computes the parts of a difference in single precision: 2023-05-25 18:40:00 minus 2023-05-19 20:31:01 gives 58 instead of 59 seconds',
      why_not_fixed='tests/src/test_datetime.c asserts the rounded value (second == 58), so the exact result would fail the existing test suite'),
]
def main():
    out = [dict(status='fixed', property=p, commit=c, what=w, line='fixed: property=%s %s %s' % (p, c, w)) for p, c, w in F]
    out += [dict(status='finding', **x) for x in FINDINGS]
    json.dump(out, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json'), 'w'), indent=1)
main()
