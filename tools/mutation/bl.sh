bl () 
{ 
    git blame -s "$1" | sed -E 's/^(\^?[0-9a-f]+) +([^ ]+ +)?([0-9]+)\) ?/\1 \3 /' | awk '{m=substr($1,1,1)=="^"?" ":"*"; sub(/^[^ ]+ /,""); print m $0}'
}
