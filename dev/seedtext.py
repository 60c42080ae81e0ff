S = {
'c05-noexcept-merge': ('C05','oomorigin',15,1,False,'a failing allocation while the origin sets of two coinciding points are merged inside the sweep','merging origin sets is declared non-throwing, so running out of memory at that point ends the process'),
'c07-top': ('C07','reuse',400,1,True,'a second hierarchical operation on an object that has already run one','the list of outermost loops is not emptied, so results of earlier operations reappear in (or dangle from) later ones'),
'c08-static-inside': ('C08','threads',20,1,False,'two threads building hierarchies at the same moment','a working array became shared by all threads, so one thread overwrites the nesting information of another'),
'c09-hash-order': ('C09','address',150,1,True,'the same input run where allocations land at other addresses','the order in which split points are kept depends on an address'),
'c11-unique': ('C11','set',3000,1,True,'merging origin sets with a duplicate that is not at the seam','duplicates stay in the reported origins'),
'c13-swap-neighbor': ('C13','raster',1500,1,True,'lines that swap places in the scan and then meet their new neighbour in the same row','the new neighbour is only looked at in the next row, so crossings within the row are missed'),
'c13-backward': ('C13','raster',1500,1,True,'a line that ends between two lines which cross in the very same row','the two lines that become neighbours are only looked at one row later'),
'c13-evenodd': ('C13','fill',300,1,True,'an area with a negative odd winding number and the even-odd rule','areas of negative odd winding number are left out'),
'm01-between-d1b': ('C01','cross',2000,1,False,'two collinear overlapping lines of which one has an end inside the other and an end outside','an overlap is not split at the inner end'),
'm01-connfirst': ('C01','cross',2000,1,False,'two collinear lines that share an end and overlap','overlapping lines that share an end are not split'),
'm01-ti-ge': ('C01','cross',2000,1,False,'the far end of one line lies inside another line','the line is not split where the end of another one touches it'),
'm01-both-false': ('C01','cross',2000,1,False,'two identical lines','identical lines are not recognised as meeting'),
'm02-diff-ws1': ('C02','region',2000,1,False,'the difference of overlapping subjects and a clip','lines of the clip inside two overlapping subjects are dropped'),
'm02-union-le': ('C02','region',2000,1,False,'a union whose loops include one of opposite orientation with negative winding outside','lines next to areas of negative winding are kept'),
'm03-inside-pos': ('C03','hier',400,1,False,'a hierarchical result whose loops are nested several levels deep and next to one another','which loops enclose a loop is mixed up between neighbours in the sweep, so it hangs under the wrong parent'),
'm05-sink-throw': ('C05','region',2000,1,False,'adding loops of fewer than three points between others','points of a rejected loop stay behind in the shared buffer'),
'm05-ran-late': ('C06','except',400,1,True,'a call that fails with an exception, and the same object used again','an execution that failed part way leaves its broken state to be used by the next call'),
'm08-static-tmp': ('C08','threads',20,1,False,'two objects running at the same time on two threads','a temporary of the intersection test became shared by all threads'),
'm09-rgen-time': ('C09','life',400,1,True,'the same input given to objects at different addresses','the rounding of intersection points is seeded by the address of the object'),
'm11-merge-empty': ('C11','origin',1000,1,True,'four or more inputs passing through the same point','origins are lost when large sets are merged into non-empty ones'),
'm11-create-size': ('C11','set',3000,1,True,'a merge that makes an origin set larger than its allocation','the allocation for a set is one element short'),
'm11-append-cap': ('C11','set',3000,1,True,'a merge whose result exceeds the capacity by exactly one','one element is written past the end of the set'),
'm12-arc-steps-neg': ('C12','offset',1500,1,False,'a negative magnitude and a lone point or reversed end','the arc around an end is left out'),
'm13-prev-next': ('C13','raster',1500,1,True,'a line that ends next to a line starting on the same row','a crossing is not looked for'),
'm13-dge0': ('C13','raster',1500,1,True,'a line that touches another at its very end','lines that only touch are not handled as crossing'),
'm13-coinc': ('C13','raster',1500,1,True,'three lines crossing near one another within a row','a crossing in the same row is scheduled for the next one'),
'm13-wf-cmp': ('C13','raster',1500,1,True,'crossings in one row whose fractions have different denominators','crossings within a row are handled in the wrong order'),
'm13-negfill': ('C13','fill',300,1,True,'an area of winding number -2 and the negative rule','areas of winding number below -1 are left out'),
'm13-ran': ('C13','raster',1500,1,True,'an object scanned again with new lines','the lines of the former image are still there'),
'c04-rounding': ('C04','progress',20000,1,False,'nearly parallel long lines with 64-bit coordinates, whose cuts keep making new crossings','rounding always goes the same way, so cutting goes on without end'),
'm04-ceil-x': ('C04','progress',20000,1,False,'nearly parallel long lines with 64-bit coordinates','one coordinate of an intersection is always rounded up, so cutting drifts on without end'),
'm04-rgen-copy': ('C04','progress',20000,1,False,'nearly parallel long lines with 64-bit coordinates','the random generator is passed by value, so every rounding falls the same way and cutting goes on without end'),
'm10-second-orig': ('C10','tracker',3000,1,False,'a loop whose second point is preceded by a repeated one, or whose indices are not consecutive','the second point of a loop is reported with the wrong original index'),
'm07-held-back': ('C03','dups',3000,1,False,'the first point of a loop occurs twice in a row further on','a line of zero length is added'),
'm06-close-zero': ('C06','partial',3000,1,False,'an exception thrown right after a point equal to the first of its loop','what was added of the loop is closed by a line of zero length'),
'm06-no-pop': ('C06','partial',3000,1,False,'a tracker that throws when the third or a later point of a loop is added, and an operation without a reset in between','the point the tracker refused stays, so later callbacks mention points the tracker never had'),
'm18-both-half': ('C18','fixed',3000,1,False,'lines that coincide completely','the ends of one of two identical lines are not classified'),
'm07-exec-noreset': ('C10','tracker',3000,1,False,'two executions in a row without loops added in between','the tracker still holds the points of the operation before'),
'o-dup-order': ('C11','offorigin',1000,1,False,'a closed loop with repeated points that is offset','points after a repeated one report the wrong input point'),
'o-open-next': ('C11','offorig2',2000,1,False,'another path added after an open one of which offsets are made','points report those of another path'),
'o-std-next': ('C12','offdups',3000,1,False,'an open path with repeated points at its end','the way back along the path starts at the wrong point'),
'o-closed-2': ('C12','offdups',3000,1,False,'a closed loop that ends with its first point','the last corner is made with a line of zero length'),
'o-first-dup': ('C12','offdups',3000,1,False,'a closed loop all of whose points are the same, or that ends that way','a corner is made with a line of zero length'),
'o-buffer-static': ('C08','offthreads',60,1,True,'two threads making offsets of open paths from single-pass ranges at the same time','the threads share one buffer of points'),
}
SP = {  # Python: id -> (property, needs, what_it_breaks); the demo mode is in mutants3.py
'p14-partial-leak': ('C14','a result whose n-th loop object cannot be made, after n others were','the tuple holding the loops made so far is never released'),
'p14-child-leak': ('C14','a tracked tree result in which making an inner loop fails','the outer loop and its origin arrays are never released'),
'p14-memerr': ('C14','memory exhaustion while a TrackedClipper executes without hierarchy','memory exhaustion arrives as RuntimeError instead of MemoryError'),
'p14-noexec-noexcept': ('C14','memory exhaustion while a Clipper executes','memory exhaustion ends the process'),
'p14-swallow': ('C14','a coordinate whose conversion to an integer raises, in a loop given as an array of objects','the exception is dropped and the loop left out of the result'),
'p14-offset-range': ('C14','a coordinate whose conversion raises, in a loop to be offset','the failed iterator is used, which crashes'),
'p14-offset-static': ('C14','two threads adding offsets at the same time while the interpreter lock is released','the threads share one buffer of points, so loops get mixed up'),
'p14-loop-refs': ('C14','a tree result in which making a loop object fails','the inner loops of the failed one are never released'),
}
