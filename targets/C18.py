"""C18: an existing output file is never overwritten unless forced."""
from irv.targets import Target
from . import mains, C11

UNITS = {"convert": ("/verif/harness/convert.cpp", ["-I/verif/harness"], "c++"),
         "topn": ("/verif/harness/topn.cpp", ["-I/verif/harness"], "c++"),
         "download": ("/verif/harness/download.cpp", ["-I/verif/harness"], "c++")}
TRUSTED = ["CLI11: parse() sets the options to what the command line says, or throws CLI::ParseError"]
ASSUMPTIONS = ["std::filesystem::exists tells whether the file exists; nothing else creates it between that and the open",
               "std::ofstream with out or binary truncates, with app it adds",
               "build_topn reaches its file only through get_output_stream (C10)"]
TARGETS = [Target("main of hibp-convert", ["convert"], mains.convert_main),
           Target("main of hibp-topn", ["topn"], mains.topn_main),
           Target("main of hibp-download", ["download"], mains.download_main, prop="C18")] + \
    [Target(f"get_output_stream of hibp-{a}", [a], mains.output_stream, app=a) for a in ("convert", "topn")] + \
    [Target(f"files that convert<{k}> {m} creates", ["convert"], mains.only_files(C11.convert), kind=k, mode=m, std_in=si, std_out=so)
     for k, m, si, so in (("sha1", "t2b", False, False), ("ntlm", "t2b", True, False), ("sha1", "b2t", False, False))]
