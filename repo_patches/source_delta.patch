From 12f566d80917a26236b0e4a42cd040987331ae14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:26 +0000
Subject: [PATCH 01/17] fix: simulator soft switch status reads always returned
 0

0x80 & True is 0, so a program could never see a switch as on.
---
 simulator/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulator/machine.py b/simulator/machine.py
index bc6d076..4f4220f 100644
--- a/simulator/machine.py
+++ b/simulator/machine.py
@@ -73,7 +73,7 @@ class SoftSwitch:
     def get(self) -> int:
         Log(self.name, "Reading soft switch (%s)" % (
             "on" if self.state else "off"))
-        return 0x80 & self.state
+        return 0x80 if self.state else 0x00
 
     @staticmethod
     def unimplemented(_):
-- 
2.43.0


From 50c09c74c360e0b69446781b126fcb298c5ffa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:26 +0000
Subject: [PATCH 02/17] fix: simulated Uthernet lost bit 7 of the address when
 WADRH was written

The high byte must leave the whole low byte of the pointer alone, and
the address space is 15 bits wide.
---
 simulator/apple2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simulator/apple2.py b/simulator/apple2.py
index 7ab06cd..6aa2e89 100644
--- a/simulator/apple2.py
+++ b/simulator/apple2.py
@@ -58,7 +58,8 @@ class AppleII(machine.Machine):
 
         def _uther_wadrh(mode, value):
             old = self.uthernet.ptr
-            self.uthernet.ptr = (value << 8) | (self.uthernet.ptr & 0x7f)
+            self.uthernet.ptr = ((value & 0x7f) << 8) | (
+                    self.uthernet.ptr & 0xff)
             machine.Log("WADRH", "%04x -> %04x" % (old, self.uthernet.ptr))
 
         def _uther_wadrl(mode, value):
-- 
2.43.0


From 12342767e9724eeaf02a81a99a1a5f3cbce033a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:26 +0000
Subject: [PATCH 03/17] fix: simulator reported an unexpected write of 0 as a
 read

---
 simulator/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulator/machine.py b/simulator/machine.py
index 4f4220f..8d4af52 100644
--- a/simulator/machine.py
+++ b/simulator/machine.py
@@ -129,7 +129,7 @@ class Machine:
                 print("**** IO EVENT with unexpected mode: %s" % access_mode)
                 raise TrapException(address, access_mode)
         except KeyError:
-            if value:
+            if value is not None:
                 raise TrapException(
                     address, 'Wrote %02X ("%s")' % (value, chr(value)))
             else:
-- 
2.43.0


From 0176eb66ac59807f96d2687dcb8534e4b0f7618f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:46 +0000
Subject: [PATCH 04/17] fix: simulator covered only the first half of each
 hi-res page

A hi-res page is 8K, so writes to $5000-$5FFF were not denied.
---
 simulator/apple2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simulator/apple2.py b/simulator/apple2.py
index 6aa2e89..63a71e9 100644
--- a/simulator/apple2.py
+++ b/simulator/apple2.py
@@ -14,8 +14,8 @@ class AppleII(machine.Machine):
                 "Text page 1", 0x0400, 0x7ff,
                 write_interceptor=self.TextPageWriteInterceptor),
 
-            memory.MemoryRegion("HiRes Page 1", 0x2000, 0x2fff),
-            memory.MemoryRegion("HiRes Page 2", 0x4000, 0x4fff, writable=False),
+            memory.MemoryRegion("HiRes Page 1", 0x2000, 0x3fff),
+            memory.MemoryRegion("HiRes Page 2", 0x4000, 0x5fff, writable=False),
 
             memory.MemoryRegion(
                 "IO page", 0xc000, 0xc0ff,
-- 
2.43.0


From 7c7b92ed44f2705b03f5233e4120643cc4ebbef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:46 +0000
Subject: [PATCH 05/17] fix: simulated Uthernet pointer ignored auto-increment
 mode and buffer wrap

The W5100 leaves the address alone unless auto-increment is on, and goes
from the end of TX or RX memory back to its start.
---
 simulator/uthernet.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/simulator/uthernet.py b/simulator/uthernet.py
index 5859a8e..d3dd742 100644
--- a/simulator/uthernet.py
+++ b/simulator/uthernet.py
@@ -275,14 +275,23 @@ class Uthernet(machine.Machine):
 
     def read_data(self):
         val = self.memory[self.ptr]
-        self.ptr = (self.ptr + 1) & 0x7fff
+        self._advance()
         return val
 
     def write_data(self, value):
         self.memory[self.ptr] = value
-        self.ptr = (self.ptr + 1) & 0x7fff
+        self._advance()
         return
 
+    def _advance(self):
+        # Only in auto-increment mode, and wrapping within TX and RX memory
+        if not self._auto_increment:
+            return
+        if self.ptr in (0x5fff, 0x7fff):
+            self.ptr -= 0x1fff
+        else:
+            self.ptr += 1
+
     def read_mode(self):
         return self.memory[0x0000]
 
-- 
2.43.0


From ddd5c6a5f18062659d5d0d5dc0209296296a2f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 06/17] fix: transcoder hung forever when a video frame could
 not be decoded

An exception ended the background thread without telling the consumer,
which kept waiting on the queue.
---
 transcoder/frame_grabber.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/transcoder/frame_grabber.py b/transcoder/frame_grabber.py
index 2940f1d..aec03c4 100644
--- a/transcoder/frame_grabber.py
+++ b/transcoder/frame_grabber.py
@@ -121,8 +121,13 @@ class FileFrameGrabber(FrameGrabber):
                 _dhgr_decode if self.video_mode == VideoMode.DHGR else
                 _hgr_decode
             )
-            for _idx, _frame in enumerate(self._frame_grabber()):
-                q.put(decode(_idx, _frame))
+            try:
+                for _idx, _frame in enumerate(self._frame_grabber()):
+                    q.put(decode(_idx, _frame))
+            except Exception as e:
+                # Let the consumer fail rather than wait forever
+                q.put((e, None))
+                return
 
             q.put((None, None))
 
@@ -133,6 +138,8 @@ class FileFrameGrabber(FrameGrabber):
             main, aux = q.get()
             if main is None:
                 break
+            if isinstance(main, Exception):
+                raise main
 
             main_map = screen.FlatMemoryMap(
                 screen_page=1, data=main).to_memory_map()
-- 
2.43.0


From b63905d1d83b4d7ce44cbbfd426b774639a40f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 07/17] fix: frame left incomplete by an interrupted run was
 never converted again

Any existing file counted as a cached frame, so once a run died while
bmp2dhr was writing, every later run failed on the short file.
---
 transcoder/frame_grabber.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/transcoder/frame_grabber.py b/transcoder/frame_grabber.py
index aec03c4..d300022 100644
--- a/transcoder/frame_grabber.py
+++ b/transcoder/frame_grabber.py
@@ -50,6 +50,14 @@ class FileFrameGrabber(FrameGrabber):
             video_mode.name,
             palette.name)
 
+    @staticmethod
+    def _is_cached(filename: str) -> bool:
+        """Whether a previous run left a complete 8K screen image."""
+        try:
+            return os.stat(filename).st_size == 8192
+        except FileNotFoundError:
+            return False
+
     def _palette_arg(self) -> str:
         return "P%d" % self.palette.value
 
@@ -69,9 +77,7 @@ class FileFrameGrabber(FrameGrabber):
             outfile = "%s/%08dC.BIN" % (frame_dir, _idx)
             bmpfile = "%s/%08d.bmp" % (frame_dir, _idx)
 
-            try:
-                os.stat(outfile)
-            except FileNotFoundError:
+            if not self._is_cached(outfile):
                 _frame = _frame.resize((280, 192), resample=Image.LANCZOS)
                 _frame.save(bmpfile)
 
@@ -93,10 +99,7 @@ class FileFrameGrabber(FrameGrabber):
 
             bmpfile = "%s/%08d.bmp" % (frame_dir, _idx)
 
-            try:
-                os.stat(mainfile)
-                os.stat(auxfile)
-            except FileNotFoundError:
+            if not (self._is_cached(mainfile) and self._is_cached(auxfile)):
                 _frame = _frame.resize((280, 192), resample=Image.LANCZOS)
                 _frame.save(bmpfile)
 
-- 
2.43.0


From d13ad05ad8050f5f45322db8ecf2c648583da40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 08/17] fix: inputs without a suffix wrote outside the input's
 directory

"movie" used /DHGR/NTSC at the filesystem root for its frames, and
"my.videos/movie" wrote to my.a2m and my/DHGR/NTSC.
---
 transcoder/frame_grabber.py | 3 ++-
 transcoder/main.py          | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/transcoder/frame_grabber.py b/transcoder/frame_grabber.py
index d300022..3aa8181 100644
--- a/transcoder/frame_grabber.py
+++ b/transcoder/frame_grabber.py
@@ -45,8 +45,9 @@ class FileFrameGrabber(FrameGrabber):
 
     @staticmethod
     def _output_dir(filename, video_mode, palette) -> str:
+        base, suffix = os.path.splitext(filename)
         return "%s/%s/%s" % (
-            ".".join(filename.split(".")[:-1]),
+            base if suffix else filename + ".frames",
             video_mode.name,
             palette.name)
 
diff --git a/transcoder/main.py b/transcoder/main.py
index 398532d..703d8b0 100644
--- a/transcoder/main.py
+++ b/transcoder/main.py
@@ -1,6 +1,7 @@
 """Transcodes an input video file to ][-Vision format."""
 
 import argparse
+import os
 
 import movie
 import palette
@@ -62,7 +63,7 @@ def main(args):
         out_filename = args.output
     else:
         # Replace suffix with .a2m
-        out_filename = ".".join(filename.split(".")[:-1] + ["a2m"])
+        out_filename = os.path.splitext(filename)[0] + ".a2m"
 
     with open(out_filename, "wb") as out:
         for bytes_out, b in enumerate(m.emit_stream(m.encode())):
-- 
2.43.0


From d051a4d30285b70c86cfb4176f873278e03c8726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 09/17] fix: padding stores changed the screen without the
 encoder noticing

When out of work the target's first byte was stored without recording it,
although the byte on the screen may be a different, equal-looking one.
---
 transcoder/video.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/transcoder/video.py b/transcoder/video.py
index fe90147..b76a790 100644
--- a/transcoder/video.py
+++ b/transcoder/video.py
@@ -246,7 +246,9 @@ class Video:
         #     assert False
 
         # If we run out of things to do, pad forever
-        content = target.page_offset[0, 0]
+        # (with what is already there: the target's byte may look the same but
+        # differ, and then we would no longer know what is on the screen)
+        content = source.page_offset[0, 0]
         while True:
             yield 32, content, [0, 0, 0, 0]
 
-- 
2.43.0


From c673469bddea98f728d0a3b8bb702f1883f7e7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 10/17] fix: opcodes used only three of their four stores

The search for offsets to fill up an opcode stopped one short, and the
fourth store repeated the first.
---
 transcoder/video.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transcoder/video.py b/transcoder/video.py
index b76a790..8b1fde1 100644
--- a/transcoder/video.py
+++ b/transcoder/video.py
@@ -178,7 +178,7 @@ class Video:
                         priorities, (-p, random.getrandbits(8), page, o))
 
                 offsets.append(o)
-                if len(offsets) == 3:
+                if len(offsets) == 4:
                     break
 
             # Pad to 4 if we didn't find enough
-- 
2.43.0


From 453230d02ff1a8a7804baa2a9d8f4c59438589b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 11/17] fix: silent audio was encoded at full negative
 deflection

The normalization was infinite, and the resulting NaNs clipped to -15.
---
 transcoder/audio.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transcoder/audio.py b/transcoder/audio.py
index f537be2..7c98a1a 100644
--- a/transcoder/audio.py
+++ b/transcoder/audio.py
@@ -79,7 +79,8 @@ class Audio:
         a = self._decode(f, raw)
         norm = np.max(np.abs(np.percentile(a, [0.5, 99.5])))
 
-        return 16384. / norm
+        # Leave silence alone
+        return 16384. / norm if norm else 1.
 
     def audio_stream(self) -> Iterator[int]:
         """
-- 
2.43.0


From d3053221875d28d7186331817852f3ed8e86819f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 12/17] fix: an audio normalization of 0 was ignored

---
 transcoder/audio.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transcoder/audio.py b/transcoder/audio.py
index 7c98a1a..e32545c 100644
--- a/transcoder/audio.py
+++ b/transcoder/audio.py
@@ -42,7 +42,8 @@ class Audio:
         self.sample_rate = float(bitrate)  # type: float
 
         self.normalization = (
-                normalization or self._normalization())  # type: float
+                self._normalization() if normalization is None
+                else normalization)  # type: float
 
     def _decode(self, f, buf) -> np.array:
         """
-- 
2.43.0


From 218aafe62525fa633eb880f4d5d2a65283019645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:21 +0000
Subject: [PATCH 13/17] fix: simulator left the last byte of each ROM unloaded

The interrupt vector at $FFFE-$FFFF was one of them.
---
 simulator/simulator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simulator/simulator.py b/simulator/simulator.py
index de20ff6..0eabdaa 100644
--- a/simulator/simulator.py
+++ b/simulator/simulator.py
@@ -16,10 +16,10 @@ def main():
     # TODO: other slot ROMs; alternate Cx ROMs
 
     # Slot 6 ROM
-    a2.memory.write(0xc600, rom[0x0600:0x6ff])
+    a2.memory.write(0xc600, rom[0x0600:0x0700])
 
     # Main ROM
-    a2.memory.write(0xd000, rom[0x5000:0x7fff])
+    a2.memory.write(0xd000, rom[0x5000:0x8000])
 
     # Load video player
 
-- 
2.43.0


From c5d8239a69df216fa7459bf71b38b936cdd01267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:52 +0000
Subject: [PATCH 14/17] fix: an input named .a2m, or also named as output, was
 overwritten

---
 transcoder/main.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/transcoder/main.py b/transcoder/main.py
index 703d8b0..506c418 100644
--- a/transcoder/main.py
+++ b/transcoder/main.py
@@ -65,6 +65,9 @@ def main(args):
         # Replace suffix with .a2m
         out_filename = os.path.splitext(filename)[0] + ".a2m"
 
+    if os.path.realpath(out_filename) == os.path.realpath(filename):
+        parser.error("output would overwrite the input %s" % filename)
+
     with open(out_filename, "wb") as out:
         for bytes_out, b in enumerate(m.emit_stream(m.encode())):
             out.write(bytearray([b]))
-- 
2.43.0


From 5e5714054c4b017999c16ab586091297c2e994b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:06 +0000
Subject: [PATCH 15/17] fix: do not let the rounding of audio blocks add up

Each block read from the audio file is resampled on its own and its length
rounded up to whole output samples.  Blocks are as small as 8192 bytes, so
that at 44.1KHz every 2048 samples became 683 instead of 682.67 and the audio
fell behind the video by almost two seconds per hour.
---
 transcoder/audio.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/transcoder/audio.py b/transcoder/audio.py
index e32545c..89eb4d2 100644
--- a/transcoder/audio.py
+++ b/transcoder/audio.py
@@ -88,10 +88,18 @@ class Audio:
 
         :return:
         """
+        samples_in = samples_out = 0
         with audioread.audio_open(self.filename) as f:
             for buf in f.read_data(128 * 1024):
                 a = self._decode(f, buf)
 
+                # The length of each resampled block is rounded up, don't let
+                # this add up or the audio falls behind the video.
+                samples_in += len(buf) // (2 * f.channels)
+                a = a[:int(np.ceil(samples_in * self.sample_rate /
+                                   f.samplerate)) - samples_out]
+                samples_out += len(a)
+
                 a /= 16384  # normalize to -1.0 .. 1.0
                 a *= self.normalization
 
-- 
2.43.0


From 180eaf383b206693d8504f9d72e562dd63eaf81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:14 +0000
Subject: [PATCH 16/17] fix: accept audio blocks that end in the middle of a
 sample

The decoder returns blocks of 8192 bytes, which is not a whole number of
samples for e.g. 5.1 audio (12 bytes each), and decoding such a block failed.
---
 transcoder/audio.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/transcoder/audio.py b/transcoder/audio.py
index 89eb4d2..31ab598 100644
--- a/transcoder/audio.py
+++ b/transcoder/audio.py
@@ -62,6 +62,18 @@ class Audio:
 
         return a
 
+    @staticmethod
+    def _blocks(f, *args) -> Iterator[bytes]:
+        """Blocks of audio data made up of whole samples for all channels."""
+        sample_bytes = 2 * f.channels
+        rest = b""
+        for buf in f.read_data(*args):
+            buf = rest + bytes(buf)
+            whole = len(buf) - len(buf) % sample_bytes
+            rest = buf[whole:]
+            if whole:
+                yield buf[:whole]
+
     def _normalization(self, read_bytes=1024 * 1024 * 10):
         """Read first read_bytes of audio stream and compute normalization.
 
@@ -73,8 +85,8 @@ class Audio:
         """
         raw = bytearray()
         with audioread.audio_open(self.filename) as f:
-            for buf in f.read_data():
-                raw.extend(bytearray(buf))
+            for buf in self._blocks(f):
+                raw.extend(buf)
                 if len(raw) > read_bytes:
                     break
         a = self._decode(f, raw)
@@ -90,7 +102,7 @@ class Audio:
         """
         samples_in = samples_out = 0
         with audioread.audio_open(self.filename) as f:
-            for buf in f.read_data(128 * 1024):
+            for buf in self._blocks(f, 128 * 1024):
                 a = self._decode(f, buf)
 
                 # The length of each resampled block is rounded up, don't let
-- 
2.43.0


From a1dd9f79852d9ff7fabedad06c9d9700da185a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:14 +0000
Subject: [PATCH 17/17] fix: an audio track without a single sample has nothing
 to normalize

Computing its percentiles failed instead of making an empty stream.
---
 transcoder/audio.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/transcoder/audio.py b/transcoder/audio.py
index 31ab598..2c150dd 100644
--- a/transcoder/audio.py
+++ b/transcoder/audio.py
@@ -89,6 +89,8 @@ class Audio:
                 raw.extend(buf)
                 if len(raw) > read_bytes:
                     break
+        if not raw:
+            return 1.
         a = self._decode(f, raw)
         norm = np.max(np.abs(np.percentile(a, [0.5, 99.5])))
 
-- 
2.43.0

