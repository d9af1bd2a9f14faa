#!/usr/bin/env python3
"""Builds the simulator binary from /repo's current working tree into /verif/build (git-ignored)."""
import glob, os, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SPS_REPO", "/repo")
BUILD = os.environ.get("SPS_BUILD", os.path.join(HERE, "build"))

# need the patched librtmp of an empty submodule: they cannot be compiled here (see /opt/vp/sps_hook.cmake)
EXCLUDE = {
    "avformat/sps_avformat_librtmp.cpp", "avformat/sps_avformat_librtmp_packet.cpp",
    "avformat/sps_avformat_rtmpdec.cpp", "avformat/sps_avformat_rtmpenc.cpp",
    "install/sps_install_avformat.cpp", "install/sps_install_url_protocols.cpp",
    "install/sps_install_modules.cpp",
    "io/url/sps_io_url_rtmp.cpp", "io/url/sps_io_url_rtmp_ffmpeg.cpp",
}
HDR = """#ifndef SPS_AUTO_HEADER
#define SPS_AUTO_HEADER
#define GIT_VERSION "sim"
#define GIT_BRANCH  "sim"
#define SRT_ENABLED
#define OPENSSL_ENABLED
#endif
"""

def write_if_changed(path, text):
    if os.path.exists(path):
        with open(path) as f:
            if f.read() == text:
                return
    with open(path, "w") as f:
        f.write(text)

def main():
    os.makedirs(os.path.join(BUILD, "hdr"), exist_ok=True)
    write_if_changed(os.path.join(BUILD, "hdr", "sps_auto_header.hpp"), HDR)
    src = os.path.join(REPO, "src")
    files = sorted(glob.glob(os.path.join(src, "**", "*.cpp"), recursive=True))
    dirs = sorted({os.path.dirname(p) for p in
                   glob.glob(os.path.join(src, "**", "*.hpp"), recursive=True) + files} | {src})
    inc = ["-I" + os.path.join(BUILD, "hdr"), "-isystem /opt/vp/compat"]
    inc += ["-I" + d for d in dirs]
    cxx = "g++ -std=c++14 -w -O1 -g1 -fno-omit-frame-pointer -fsanitize=address -fno-sanitize-address-use-after-scope"
    sps_def = ""
    out = ["ninja_required_version = 1.5",
           "cxx = " + cxx, "inc = " + " ".join(inc),
           "rule cc", "  command = $cxx $def $inc -MMD -MF $out.d -c $in -o $out",
           "  depfile = $out.d", "  deps = gcc",
           "rule ld", "  command = g++ -fsanitize=address -Wl,--wrap=exit $in -o $out -lhttp_parser -lssl -lcrypto -ldl -lpthread", ""]
    objs = []
    for f in files:
        rel = os.path.relpath(f, src)
        if rel in EXCLUDE or rel.startswith("module/rtmp/"):
            continue
        if rel.startswith("main/") and rel != "main/sps_main_sps.cpp":
            continue
        o = "obj/" + rel.replace("/", "__")[:-4] + ".o"
        d = sps_def + (" -Dmain=sps_main" if rel.startswith("main/") else "")
        out += ["build %s: cc %s" % (o, f), "  def = " + d]
        objs.append(o)
    for f in sorted(glob.glob(os.path.join(HERE, "sim", "*.cpp"))):
        o = "obj/sim__" + os.path.basename(f)[:-4] + ".o"
        out += ["build %s: cc %s" % (o, f), "  def = -I" + os.path.join(HERE, "sim") + " -DCERTS=\\\"" + os.path.join(HERE, "certs") + "\\\""]
        objs.append(o)
    out += ["build sim: ld " + " ".join(objs), "default sim", ""]
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    write_if_changed(os.path.join(BUILD, "build.ninja"), "\n".join(out))
    r = subprocess.run(["ninja", "-C", BUILD] + sys.argv[1:], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-8000:])
    return r.returncode

if __name__ == "__main__":
    sys.exit(main())
