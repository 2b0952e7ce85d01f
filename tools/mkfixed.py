#!/usr/bin/env python3
# known_findings.json: unrepaired findings (none) and the repairs in /repo.
import json, subprocess, os
here = os.path.dirname(os.path.abspath(__file__))
P = {
 "4f22107":("C01","Decode refused i-9223372036854775808e, which Encode writes"),
 "48b210b":("C03","i-0e was accepted"),
 "eea44e1":("C03","a string that runs past the data decoded to memory behind it when the buffer has spare capacity"),
 "d32435c":("C04","a negative integer was returned as a huge unsigned one"),
 "2f8c0d6":("C03","deeply nested lists exhausted the stack and killed the process"),
 "f441398":("C05","encoding a request crashed (12 bytes of fields in a 5 byte buffer)"),
 "17c7fde":("C06","well-formed piece messages were refused"),
 "a159ab1":("C06","a malformed piece message crashed the decoder"),
 "f2ca272":("C07","DecodeAll looped forever on a bitfield message without payload"),
 "fe4ddfc":("C06","a length prefix near 2^32 crashed the decoder"),
 "8758127":("C09","SetNbits accepted 8(n-1) bits for n bytes"),
 "c514e2a":("C08","Fill overwrote the prefix bytes and set spare bits"),
 "43663f6":("C05","encoding the shared bitfield wrote into it (data race between sessions)"),
 "4ae5cda":("C36","Set.Items listed zero values that are not members"),
 "27a9bc6":("C23","NextPiece gave the same piece to several peers"),
 "d1f1e41":("C23","Unregister released pieces that meanwhile belong to another peer"),
 "450ea48":("C24","the 64th peer of a piece crashed the tracker (index 64 of 64 buckets)"),
 "d3887a8":("C11","an empty file path crashed"),
 "868f042":("C11","piece length 0, negative and overflowing lengths were accepted or crashed"),
 "5968b63":("C11","more piece hashes than the files need were accepted"),
 "4079317":("C12","names and paths with .., / or empty components left the working directory"),
 "2173f7e":("C11","two files with one path were accepted"),
 "9c22fe1":("C14","creating a torrent with pieces over 5 MiB never ended; piece length 0 crashed"),
 "860c16e":("C13","the infohash of a non-canonical info dictionary was not that of its bytes"),
 "d91e4b1":("C15","WritePiece stored data of another length than the piece's"),
 "81642a7":("C15","ReadPiece crashed with a short buffer"),
 "460b829":("C28","a request for a piece that does not exist crashed the client"),
 "0993d8f":("C26","a request past the end of a piece crashed or sent bytes of another piece"),
 "0458df9":("C25","createReqMessages never ended"),
 "2c3080d":("C05","Choke sent another message"),
 "955b0e4":("C27","a handshake that arrives in parts was refused"),
 "e31919e":("C27","refused connections stayed open"),
 "5995ca4":("C40","the handshake of a peer we connect to was not verified"),
 "d951f14":("C29","messages split over several reads were dropped"),
 "9896195":("C32","Finish blocked, Run never ended, or data that came with an error was lost"),
 "53a11b9":("C30","a failed session did not end: goroutines, connection and assignments stayed"),
 "96d53a5":("C30","the request loop did not stop when the session ended and ignored write errors"),
 "649eb64":("C31","the counters were accessed without synchronisation (data race)"),
 "47f097e":("C19","a malformed announce URL crashed"),
 "7dd7ce8":("C19","the peer id was escaped twice"),
 "2364005":("C20","ports were cut to 16 bits and unparsable addresses became nil"),
 "7b5ace5":("C21","IPv6 addresses were not bracketed"),
 "69f0be3":("C33","rates that do not fit wrapped around"),
 "15ed2ab":("C33","ports that do not fit were cut to 16 bits"),
 "05c1c8e":("C31","a transfer that waits for the next window kept waiting when the limit was lifted"),
 "5a448de":("C42","the first announce said that nothing is left although pieces are missing"),
 "2238667":("C44","incoming sessions appended to a shared slice without a lock (data race)"),
 "fd636f0":("C44","a connection that could not be accepted (no descriptors left) ended the client"),
 "9cd4b9e":("C45","CloseAll left files open after an error"),
 "ac92cbc":("C41","a peer that stopped reading was never disconnected"),
 "2245adf":("C38","two sessions with the same peer shared one identity"),
}
log = subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s"],capture_output=True,text=True).stdout.split("\n")
out = []
for l in log:
    if " fix:" in l:
        h = l.split()[0]
        if h not in P: raise SystemExit("no entry for "+l)
        out.append("fixed: property=%s %s %s" % (P[h][0], h, P[h][1]))
json.dump({"findings":[],"fixed":out}, open(os.path.join(here,"..","known_findings.json"),"w"), indent=1)
print(len(out))
