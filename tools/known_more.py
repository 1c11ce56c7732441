fixed+=[
 ('C18','571bfd7','readers lost the sign of gates that simplify to negated or constant literals; the ascii reader did not know constants as gate inputs'),
 ('C18','f9484b5','a latch with unknown reset was rejected in ascii unless its literal was the next after the inputs'),
 ('C19','4332144','inputs, latches and gates redefining a literal or the constant, or out of range, were accepted or panicked'),
 ('C19','16e487a','a zero first delta was read as a gate depending on itself'),
 ('C19','4d834b7','read errors made the readers loop for ever; over-long deltas wrapped around; a comment without final newline was rejected'),
 ('C19','801b3fd','headers with inconsistent or huge counts panicked; numbers wrapped around'),
 ('C19','1bc51d8','a short header could make the reader allocate all memory or panic; justice sizes above 2M+1 were rejected'),
 ('C19','aa0e68e','symbols with an index out of range or unknown type were accepted silently'),
 ('C18','b430939','writers defined gates under a negated literal when they were first reached negated (invalid ascii, negative binary deltas)'),
 ('C11','f424e04','comments in data delivered together with EOF were not filtered; a comment after a blank line after a comment was an error; a reader returning (0, nil) hung'),
 ('C11','b7f8680',"'-' alone was read as 0; numbers beyond the range wrapped around to other literals"),
 ('C11','8f3fe35','truncated headers were accepted, extra numbers on the header line became literals, missing ones were taken from the first clause, negative counts panicked'),
 ('C11','1e31f52','a final clause without 0 was silently dropped'),
 ('C11','7111e04','CnfVis.Eof was never called'),
 ('C11','2eebedd','NewDimacs on a large header panicked or ran out of memory'),
 ('C12','5ace753',"blank lines, CRLF, indentation or trailing blanks made ReadICnf fail; unfinished clauses and cubes were accepted, an 'a' within a clause changed it into a cube"),
 ('C12','a7f1748','a second v line, or s after v, was an error; an s line without a result was accepted'),
]
known+=[{"property":"C18","id":"binary-latch-init","status":"known","what":"WriteBinary writes reset value 0 as 1 and 1 as 0, so a latch with a known reset value reads back with the opposite one. The stable test TestWriteBinary pins the inverted output (latch with reset F written as \"6 1\"), so it cannot be repaired here without editing that test. Only this exact inversion is tolerated; any other difference is still reported."}]
fixed+=[
 ('C20','95727ad','z.Vars mapped the first outer variable to inner variable 0 and handed out variable 0 as an inner variable'),
 ('C20','51d3688','the solver with inner variables returned inner literals from Lit, which could collide with outer ones'),
 ('C20','7a7a69d','Assume translated the caller\'s slice in place, Why translated what was in dst before, Value and Reasons of an outer variable not used before panicked'),
]
known+=[{"property":"C25","id":"py2triples-first-n","status":"known","what":"Py2Triples(n) excludes the first n Pythagorean triples ordered by their second element instead of those within 1..n; from n=870 on some triples within 1..n are not excluded (870: 102,864,870). The stable test TestPy2Triples solves Py2Triples(7000), which takes more than 10 minutes with the right triples, so it cannot be repaired here. Only exactly these omissions are tolerated."}]
fixed+=[
 ('C25','cd8829b','PyTriples used elements beyond n, under variables of other elements and parts'),
 ('C25','b41bc55','RandColor shared variables between nodes and colours and put all colours of an edge into one clause'),
 ('C25','e95ef33','squares.root missed the root of a square just beyond its table, so that triples such as (3,4,5) were missing'),
]
fixed+=[
 ('C21','b89f753','ax.T.Stop left the serving goroutine and the workers behind, and could block for good'),
 ('C21','ab6ddf6','responses did not carry the number of pending requests'),
]
fixed+=[
 ('C22','4e9a0a6','varuints of more than 32 bits were decoded to other values'),
 ('C22','f3625a7','data received but not yet read was lost when something was written (one buffer for both directions)'),
 ('C22','c04ecb3','a flush after a short write or an error sent the data again'),
 ('C23','b235a07','Stop of a solve which has just finished hung'),
 ('C23','f25735c','Model, ModelFor, Why and WhySelect returned no error when the request could not be sent'),
 ('C23','510a51e','Value gave values of the model of an earlier solve, and panicked for variables the server does not know'),
 ('C23','264149b','ModelFor panicked or shifted the values by one'),
 ('C23','2d52c9b','Dimacs left out tautologies, and so the variables only they mention'),
 ('C23','31e7a5d','Server.Trace, and TRACE_CRISP in a server starting, wrote the flag that handlers read without synchronisation (data race)'),
 ('C24','8cca9ff','a key request allocated whatever length the peer announced'),
 ('C24','3e01c5a','sessions ended without <error> for operations which may not come, or for bad numbers'),
 ('C24','fd64e65','operations during a solve crashed the server or left its solver running; models were refused after a solve that was stopped'),
 ('C24','8ac1004','model after unsat and failed after sat were answered, with whatever was there'),
 ('C24','5c068b8','<modelfor>, <failedfor>, <add> and <assume> with variable 0 or unknown variables crashed the server'),
]
fixed+=[
 ('C26','3bcf2cd','the gini command crashed on inputs with unknown extensions'),
 ('C26','80ec8f7','assumptions out of range were accepted or crashed'),
 ('C26','ab4306d','after errors with -satcomp the exit code was the one for unknown'),
 ('C26','8a78f78','without inputs nothing was read, although standard input is documented'),
 ('C26','933d15e','solved cubes of earlier batches were counted again'),
 ('C27','e5a9057','reopened suites had one more name and hash, with line ends; new ones had no instances'),
 ('C27','ed5eff9','instances without a known extension vanished when a suite was reopened; dots in directory names gave extensions'),
 ('C27','6c02d8b','LinkSuite put links into the working directory, relative ones led nowhere'),
 ('C27','789b658','suites whose creation failed half way opened without error, with missing or partial instances'),
 ('C27','64b597e','runs were opened with the environment of the reader, or not at all if a value contained ='),
 ('C27','be1e981','run names like .. reached outside of the runs (RemoveRun could remove the whole suite); a second run of the same name mixed with the first; new runs were not listed'),
 ('C27','46c5c19','start times and errors changed when reopened; results not written were reported as recorded; results were not listed in their run'),
 ('C27','48e5c84','RunSelect changed the suite it selects from'),
 ('C27','3072ac6','system time was added to real time'),
 ('C27','30ec084','comparisons of runs with missing results panicked or mixed up instances'),
]
fixed+=[
 ('C21','a51d9df','RequestGen.Limit wrote the limit without the lock that New reads it under (data race)'),
 ('C24','db408b1','the printed form of a unix socket address lost its @'),
 ('C24','fab3320','Server.Shutdown on a unix socket returned an error, and the late Shutdown of a Serve that ends removed the socket of a server started since'),
]
