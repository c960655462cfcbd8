#!/usr/bin/env python3
"""Write known-findings.json: open findings, and the fixes made in /repo."""
import json
fixed = [
 ('C26','e001f23','looking up a name read the identifier table without its lock'),
 ('C24','f7f2691','a bytes literal shared the buffer of its scanner, and changed when the next one was scanned'),
 ('C22','b666b6d',"the reader's error became a nil error when it was looked at more than once"),
 ('C22','a8f9832','a read error while skipping to the COPY data was lost'),
 ('C20','d8018a6','an empty statement waited for, and swallowed part of, the next one'),
 ('C23','f067c1a','SET x = NULL and USE NULL dereferenced nil'),
 ('C23','f0c6a89','a unicode escape beyond the largest rune was accepted as a wrong character'),
 ('C22','678e56a',"a trailing '-' or '/' at the end of the input was lost"),
 ('C21','d2ff99d','after an error in the first token the rest of the statement was parsed as a statement of its own'),
 ('C21','6fddab2',"the character after a lone '$' was swallowed, a semicolon included"),
 ('C21','18711d3','DETACH, EXECUTE, and PREPARE were taken to be empty statements'),
 ('C05','b3fdd18','an insert of many rows which failed kept the rows before the bad one'),
 ('C05','c2e3a6a','an update which failed had changed or deleted the row'),
 ('C09','5fb7547','dropping a table kept its rows, which a table created later with its id showed'),
 ('C03','e59827a','a predicate was satisfied by (or panicked on) NULL'),
 ('C12','f319b87','a table whose definition was larger than 8192 bytes was created, and then could not be opened'),
 ('C26','9cfc741','lower-casing made an identifier longer than an identifier may be'),
 ('C27','99b8d9b','an identifier which was a keyword that is not reserved decoded to another identifier'),
 ('C12','f2f18f9','formatting DEFAULT values and SELECT without FROM panicked'),
 ('C18','b61413c','a statement which could not be evaluated panicked, leaving its transaction open'),
 ('C29','e0043e7','the console went around in an endless loop when its input could not be read'),
 ('C06','b6a466d','a column length of zero was accepted'),
 ('C21','5f3ba7d','at the end of the input an erroneous statement which needed skipping gave a second error instead of the end'),
 ('C21','8005777','a statement with more than one error gave more than one error'),
 ('C21','6bad885','after a bad escape the rest of the literal was parsed: its closing quote opened a new one, which swallowed the following statements'),
 ('C21','c8fbbd4','the position of an error at a semicolon or at the end of the input was that of an earlier token or statement'),
 ('C24','57d0244','the message about unexpected bytes had the string which was scanned before them, of this or of an earlier statement'),
 ('C23','3a8669d','deeply nested input overflowed the stack, which ends the process'),
 ('C25','fd0484e','with a comment after the delimiter of COPY the data was parsed as the rest of the statement'),
 ('C15','3cc9709','a struct with a nullable field other than int64, string, ... could be stored but not read (panic)'),
('C06','048c1f4','a float beyond the range of integers (1e300, NaN) was stored in an integer column as some other number'),
('C04','fc40fa7','a client which changed a row a full scan had given it, or a BLOB it had inserted or read, changed the stored row, also of other transactions and after a rollback'),
]
open_ = [
 ('C10','drop-table','DROP TABLE is acknowledged, and has no effect (engine.DropTable is a stub)'),
 ('C10','no-cascade','dropping a database or schema keeps what was in it: creating it again shows the old schemas and tables'),
 ('C10','keyword-name','a database named by an unquoted keyword that is not reserved is listed by another identifier, and collides with the quoted name'),
]
es = [{'status':'open','property':p,'id':i,'what':w} for p,i,w in open_]
es += [{'status':'fixed','property':p,'commit':c,'what':w,'line':f'fixed: property={p} {c} {w}'} for p,c,w in fixed]
json.dump(es, open('known-findings.json','w'), indent=1); open('known-findings.json','a').write('\n')
