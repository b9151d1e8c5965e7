#!/bin/bash
# Test certificates (committed; not run by the checks).
set -e
cd "$(dirname "$0")"
W=$(mktemp -d /tmp/certs.XXXXXX)
ca() { # name subject
  openssl ecparam -name prime256v1 -genkey -noout -out $W/$1.key
  openssl req -x509 -new -key $W/$1.key -subj "/CN=$2" -days 36500 -out $W/$1.pem \
    -addext basicConstraints=critical,CA:TRUE -addext keyUsage=critical,keyCertSign,cRLSign
}
ca ca "tmi monitor test root"
ca other "untrusted test root"
key() { openssl ecparam -name prime256v1 -genkey -noout | openssl pkcs8 -topk8 -nocrypt -out $1.key; }
leaf() { # name ca start end san eku [extra] [keyfile of ca cert]
  key $1
  openssl req -new -key $1.key -subj "/CN=${7:-leaf}" -out $W/$1.csr
  mkdir -p $W/db; : > $W/db/index.txt; echo $RANDOM$RANDOM | head -c 8 > $W/db/serial; echo >> $W/db/serial
  { echo "[ca]"; echo default_ca=c; echo "[c]"; echo "database=$W/db/index.txt"; echo "serial=$W/db/serial"; echo "new_certs_dir=$W/db"
    echo default_md=sha256; echo policy=p; echo x509_extensions=e; echo copy_extensions=none; echo "[p]"; echo commonName=supplied
    echo "[e]"; [ -n "$5" ] && echo "subjectAltName=$5"; echo "extendedKeyUsage=$6"; echo "basicConstraints=critical,${8:-CA:FALSE}"; } > $W/c.cnf
  local cacert=$W/$2.pem cakey=$W/$2.key
  [ -f $cacert ] || { cacert=$2.pem; cakey=$2.key; }
  openssl ca -batch -config $W/c.cnf -cert $cacert -keyfile $cakey -in $W/$1.csr -out $W/$1.txt -notext -startdate $3 -enddate $4 -md sha256 2>/dev/null
  cp $W/$1.txt $1.pem
}
H=DNS:irc.chat.twitch.tv
A=20200101000000Z; Z=21200101000000Z
leaf good ca $A $Z $H serverAuth
leaf good2 ca $A $Z DNS:example.org,$H serverAuth
leaf wronghost ca $A $Z DNS:example.com serverAuth
leaf parenthost ca $A $Z DNS:chat.twitch.tv,DNS:twitch.tv serverAuth
leaf sibling ca $A $Z DNS:irc.chat.twitch.tv.example.com,DNS:xirc.chat.twitch.tv serverAuth
leaf wild2 ca $A $Z 'DNS:*.twitch.tv' serverAuth
leaf iponly ca $A $Z IP:127.0.0.1 serverAuth
leaf cnonly ca $A $Z "" serverAuth irc.chat.twitch.tv
leaf expired ca 20010101000000Z 20020101000000Z $H serverAuth
leaf future ca 21100101000000Z $Z $H serverAuth
leaf untrusted other $A $Z $H serverAuth
leaf clientonly ca $A $Z $H clientAuth
# a leaf of the trusted root used as if it were an authority
leaf notca ca $A $Z DNS:example.net serverAuth
leaf bynotca notca $A $Z $H serverAuth
cat bynotca.pem notca.pem > bynotca.chain; mv bynotca.chain bynotca.pem
key selfsigned
openssl req -x509 -new -key selfsigned.key -subj /CN=irc.chat.twitch.tv -days 36500 -addext subjectAltName=$H -out selfsigned.pem
cp $W/ca.pem ca.pem
rm -rf "$W"
