import subprocess
E=[("C07","detect cyclic catalog","a DOS 3.3 catalog chain that returns to a sector already read made ReadCatalog loop for ever"),
("C09","reading a text file of zeros","GetFile of a DOS 3.3 text file holding only zero bytes panicked (index -1)"),
("C09","an empty last track/sector list","an empty last track/sector list was read as 122 sectors of zeros"),
("C09","refuse a recorded length larger","a recorded length larger than the data panicked or returned bytes the file does not contain"),
("C12","detect loops in directory block chains","directory block chains and parent pointers that form a loop made the ProDOS catalog loop for ever or overflow the stack"),
("C13","IndexBlock.Set must change","IndexBlock.Set changed a copy, so the index block kept its old contents"),
("C13","NewVolumeBitMap must not overflow","NewVolumeBitMap for more than 61440 blocks wrapped around and made a bitmap of no blocks"),
("C15","refuse to write an empty file","a NakedOS put of an empty file panicked (slice bounds)"),
("C17","refuse symbol names with characters","a symbol name with characters other than letters and digits was stored with those characters dropped"),
("C15","notice a full symbol table","a NakedOS put naming a new symbol on a disk whose symbol table is full reported an error after writing the file"),
("C18","unused symbol table entries are not","unused symbol table entries were taken for chain members, so adding or deleting a symbol could lose others from their chain"),
("C19","ParseCompoundSymbol accepts valid","ParseCompoundSymbol refused valid new symbol names and accepted invalid ones"),
("C22","a next-line address just below","a next-line address one below the load address panicked (index -1)"),
("C22","detect programs whose next-line","next-line addresses that form a loop made applesoft.Decode run for ever"),
("C23","refuse lines too short","an Integer BASIC line with a length byte of 0 to 3 panicked or looped"),
("C27","mksd: the load address, not","mksd refused a binary whose start address plus length passes $C000 although the loaded range does not"),
("C26","rm -f: a missing symbolic name","delete -f of a symbolic name that is not on the disk was an error, against its help text"),
("C30","types: the empty name","FiletypeForName of the empty name returned Typeless instead of an error"),
("C35","times are stored minute first","DateTime.Validate took the minute for the hour and the reverse, so it refused regular times such as 09:49 and accepted hours up to 59"),
]
log=subprocess.check_output(['git','-C','/repo','log','--format=%h %s'],text=True).splitlines()
import sys
out=[]
for p,s,t in E:
    m=[l.split()[0] for l in log if s in l]
    assert len(m)==1,(s,m)
    out.append(f"fixed: property={p} {m[0]} {t}")
open('/verif/known-findings.txt','w').write("\n".join(out)+"\n")
